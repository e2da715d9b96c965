// C15: WebSocket messages are delivered as sent however they are split in frames and pieces; wrong frames end the connection
#include "common.hpp"
extern "C" {
#include "c15_glue.h"
#include "lib/read_constants.h"
#include "lib/allocator.h"
}
#include <sys/socket.h>
#include <unistd.h>
#include <set>
#include <signal.h>
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;
struct Msg { int op; S p; bool operator==(const Msg &o) const { return op == o.op && p == o.p; } };
static S sent; static std::vector<Msg> got; static size_t fail_at;
extern "C" int g_sent(const void *p, size_t n) { sent.append((const char *) p, n); return 0; }
extern "C" int g_got(int op, const void *p, size_t n) { got.push_back(Msg{op, S((const char *) p, n)}); return fail_at && got.size() == fail_at ? RRR_READ_SOFT_ERROR : 0; }
static S show_m(const std::vector<Msg> &m) { S r; for (auto &x : m) r += " " + std::to_string(x.op) + ":" + std::to_string(x.p.size()) + show(x.p, 30); return r; }

struct Ws { int s[2]; Ws(Src &src, bool client) { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s) == 0, "socketpair"); sent.clear(); got.clear(); fail_at = 0; static const std::vector<size_t> st{4096, 1, 2, 3, 7, 100, 65536}; g_ws_init(s[0], st[src.weighted({8, 1, 1, 1, 2, 2, 2})], client); } ~Ws() { g_ws_end(); close(s[0]); if (s[1] >= 0) close(s[1]); } };

// Frame as in the standard. len_mode 0 is the shortest form of the length
static S frame(int first, const S &p, const uint8_t *mask, int len_mode = 0, uint64_t claim = ~0ull) {
	S r(1, (char) first); uint64_t n = claim != ~0ull ? claim : p.size(); int m = mask ? 0x80 : 0; if (claim == ~0ull && n > 65535) len_mode = 2; else if (n > 125 && len_mode == 0) len_mode = n > 65535 ? 2 : 1;
	if (len_mode == 0) r += (char) (m | (int) n); else if (len_mode == 1) { r += (char) (m | 126); wr_be(r, n, 2); } else { r += (char) (m | 127); wr_be(r, n, 8); }
	if (mask) r.append((const char *) mask, 4); for (size_t i = 0; i < p.size(); i++) r += (char) (p[i] ^ (mask ? mask[i & 3] : 0)); return r;
}
struct Parsed { int first; bool masked; uint8_t mask[4]; S p; };
static std::vector<Parsed> parse_sent(const S &w) {
	std::vector<Parsed> v; size_t i = 0;
	while (i < w.size()) { Parsed f; CHECK(w.size() - i >= 2, "frame of %zu bytes was sent", w.size() - i); f.first = (uint8_t) w[i]; f.masked = (uint8_t) w[i + 1] >> 7; uint64_t n = w[i + 1] & 127; i += 2; size_t ll = n == 126 ? 2 : n == 127 ? 8 : 0; CHECK(w.size() - i >= ll, "length was cut"); if (ll) { uint64_t l = rd_be((const uint8_t *) w.data() + i, ll); CHECK(l > (n == 126 ? 125 : 65535), "length is not in the shortest form"); n = l; i += ll; } if (f.masked) { CHECK(w.size() - i >= 4, "mask was cut"); memcpy(f.mask, w.data() + i, 4); i += 4; } CHECK(w.size() - i >= n, "frame was sent with length %llu and %zu bytes", (unsigned long long) n, w.size() - i);
		f.p = w.substr(i, n); i += n; if (f.masked) for (size_t k = 0; k < n; k++) f.p[k] ^= (char) f.mask[k & 3]; v.push_back(f); }
	return v;
}
static S payload(Src &s) { switch (s.weighted({6, 3, 2, 1})) { case 0: return s.bytes(s.len(20)); case 1: return s.bytes_cheap(s.pick(std::vector<size_t>{0, 1, 124, 125, 126, 127, 128, 255, 256})); case 2: return s.bytes_cheap(s.u(5000)); default: return s.bytes_cheap(s.pick(std::vector<size_t>{65534, 65535, 65536, 65537, 70000})); } }
// Write in pieces, reading in between. Returns the first result which is not OK or incomplete
static int feed(Src &s, Ws &w, const S &data, size_t max = 0) {
	size_t i = 0; int mode = (int) s.u(3), ret = 0; g_ws_step(data.size()); 
	while (i < data.size()) { size_t n = mode == 0 ? data.size() - i : mode == 1 ? 1 + s.u(8) : mode == 2 && s.flip() ? 1 + s.u(3) : 1 + s.u(3000); if (data.size() > 20000 && n < 500) n = 500; if (n > data.size() - i) n = data.size() - i; if (n > 60000) n = 60000; ssize_t k = write(w.s[1], data.data() + i, n); bool full = k < 0; if (k > 0) i += (size_t) k; else CHECK(errno == EAGAIN, "write");
		if (full || mode != 3 || s.chance(1, 3) || data.size() > 5000 || i >= data.size()) for (;;) { ret = g_ws_read(max) & ~RRR_READ_INCOMPLETE; if (ret) return ret; int left = 0; char c; left = (int) recv(w.s[0], &c, 1, MSG_PEEK | MSG_DONTWAIT); if (left <= 0) break; } }
	return 0;
}

static void receive(Src &s) {
	bool client = s.flip(); Ws w(s, client); size_t n = 1 + s.u(5); S data; std::vector<Msg> want; std::vector<S> pongs; bool pong_seen = false, frags = false, inter = false; bool mask = s.chance(4, 5);
	auto fr = [&](int first, const S &p) { uint8_t m[4]; for (auto &x : m) x = (uint8_t) s.u(255); data += frame(first, p, mask ? m : NULL); };
	auto ctl = [&] { if (s.flip()) { S p = s.bytes(s.chance(1, 6) ? 125 : s.u(10)); pongs.push_back(p); desc(" ping%zu", p.size()); fr(0x89, p); } else { pong_seen = true; desc(" pong"); fr(0x8a, s.bytes(s.u(10))); } };
	if (s.flip()) { CHECK(g_ws_ping(1) == 0, "ping"); g_ws_shift(2000000); CHECK(g_ws_ping(1) == 0, "ping"); CHECK(g_ws_waiting(), "no ping"); CHECK(g_ws_ping(1) == 0, "ping"); CHECK(g_ws_send() == 0, "send"); auto v = parse_sent(sent); CHECK(v.size() == 1 && v[0].first == 0x89, "%zu pings were sent", v.size()); sent.clear(); } else pong_seen = true;
	for (size_t i = 0; i < n; i++) { if (s.chance(1, 4)) ctl(); Msg m{s.flip() ? 1 : 2, payload(s)}; auto cut = s.flip() ? s.cuts(m.p.size(), 3) : std::vector<size_t>(); if (s.chance(1, 12)) { cut.insert(cut.begin(), 0); }
		size_t a = 0; desc(" msg %d %zu/%zu", m.op, m.p.size(), cut.size() + 1); for (size_t k = 0; k <= cut.size(); k++) { size_t b = k < cut.size() ? cut[k] : m.p.size(); fr((k == cut.size() ? 0x80 : 0) | (k == 0 ? m.op : 0), m.p.substr(a, b - a)); a = b; if (k < cut.size()) { frags = true; if (s.chance(1, 3)) { ctl(); inter = true; } } } want.push_back(m); }
	int end = (int) s.u(3); uint8_t mk[4] = {1, 2, 3, 4}; if (end == 1) { desc(" close"); data += frame(0x88, s.flip() ? S() : S("\x03\xe8") + "bye", mask ? mk : NULL); data += frame(0x81, "after", mk); }
	int ret = feed(s, w, data); bool same = got == want; CHECK(same, "received%s, not%s", show_m(got).c_str(), show_m(want).c_str());
	CHECK(ret == (end == 1 ? RRR_READ_EOF : 0), "result %d", ret); CHECK(!g_ws_waiting() == pong_seen, "waiting for pong %d", g_ws_waiting());
	CHECK(g_ws_send() == 0, "send"); auto v = parse_sent(sent); CHECK(v.size() == pongs.size(), "%zu pongs for %zu pings", v.size(), pongs.size()); for (size_t i = 0; i < v.size(); i++) { CHECK(v[i].first == 0x8a && v[i].p == pongs[i], "answer %zu is %02x %s, the ping had %s", i, v[i].first, show(v[i].p).c_str(), show(pongs[i]).c_str()); CHECK(v[i].masked == client, "masked %d", v[i].masked); }
	label_if(inter, "control frame within a message"); label_if(frags, "fragments"); label_if(end == 1, "close"); if (frags || pongs.size()) nontrivial();
}
VP_TARGET_NOLEAK(receive, 48000, "streams of messages in one or more frames with control frames in between, masked or not, written to a local socket in pieces and read with any step size; non-trivial: there are fragments or pings");

static void refuse(Src &s) {
	Ws w(s, s.flip()); S data; std::vector<Msg> want; uint8_t m[4]; for (auto &x : m) x = (uint8_t) s.u(255); const uint8_t *mask = s.flip() ? m : NULL; size_t pre = s.u(2); for (size_t i = 0; i < pre; i++) { Msg g{1 + (int) s.u(1), s.bytes(s.u(10))}; want.push_back(g); data += frame(0x80 | g.op, g.p, mask); }
	S p = s.bytes(s.u(10)); int k = (int) s.u(8); size_t max = 0; const char *what;
	switch (k) {
		case 0: what = "unknown type"; data += frame(0x80 | (int) s.pick({3, 4, 5, 6, 7, 11, 12, 13, 14, 15}), p, mask); break;
		case 1: what = "reserved bit"; if (s.chance(1, 3)) { data += frame(1 + (int) s.u(1), p, mask) + frame((s.flip() ? 0x80 : 0) | (16 << s.u(2)), p, mask); break; } data += frame(0x80 | (16 << s.u(2)) | (int) s.pick({1, 2, 8, 9, 10}), p, mask); break;
		case 2: what = "long control frame"; data += frame(0x80 | (int) s.pick({8, 9, 10}), s.bytes_cheap(126 + s.u(300)), mask); break;
		case 3: what = "fragmented control frame"; data += frame((int) s.pick({8, 9, 10}), p, mask); break;
		case 4: what = "continuation of nothing"; data += frame(s.flip() ? 0x80 : 0, p, mask); break;
		case 5: what = "message within a message"; data += frame(1 + (int) s.u(1), p, mask); if (s.flip()) data += frame(0, p, mask); data += frame((s.flip() ? 0x80 : 0) | (1 + (int) s.u(1)), p, mask); break;
		case 6: what = "length out of range"; data += frame(0x80 | (int) s.pick({1, 2, 9}), p, mask, 2, s.flip() ? ~0ull - s.u(16) - 1 : s.flip() ? 0x8000000000000000ull + s.u64() % 0x7ffffffffffffff0ull : ~0ull - 2 - s.u(12)); break;
		case 7: what = "continuation after the end"; data += frame(1, p, mask) + frame(0x80, p, mask); want.push_back(Msg{1, p + p}); data += frame(0x80, p, mask); break;
		default: what = "more than the maximum"; max = 1000; data += frame(0x82, s.bytes_cheap(1000 + s.u(500)), mask); break;
	}
	S after = frame(0x81, "after", NULL); data += after; desc("%s", what); label(what); nontrivial();
	int ret = feed(s, w, data, max); CHECK(ret == RRR_READ_SOFT_ERROR, "%s: result %d, received%s", what, ret, show_m(got).c_str()); if (max && got.size() < want.size()) want.resize(got.size()); bool same = got == want; CHECK(same, "%s: received%s, not%s", what, show_m(got).c_str(), show_m(want).c_str());
}
VP_TARGET_NOLEAK(refuse, 30000, "correct messages followed by one wrong frame and another message; non-trivial: all");

static void send_all(Src &s) {
	bool client = s.flip(); std::vector<Msg> want; { Ws w(s, client); size_t n = 1 + s.u(4); for (size_t i = 0; i < n; i++) { Msg m{(int) s.pick({1, 2}), payload(s)}; want.push_back(m); desc(" %d:%zu", m.op, m.p.size()); char *p = NULL; if (m.p.size()) { p = (char *) g_alloc(m.p.size()); memcpy(p, m.p.data(), m.p.size()); } CHECK(g_ws_enqueue(m.op, &p, m.p.size()) == 0, "enqueue"); CHECK(!p, "ownership"); if (s.flip()) CHECK(g_ws_send() == 0, "send"); } CHECK(g_ws_send() == 0, "send"); CHECK(g_ws_send() == 0, "send"); }
	S wire = sent; auto v = parse_sent(wire); CHECK(v.size() == want.size(), "%zu frames for %zu messages", v.size(), want.size()); std::set<S> masks;
	for (size_t i = 0; i < v.size(); i++) { CHECK(v[i].first == (0x80 | want[i].op) && v[i].p == want[i].p, "frame %zu is %02x with %zu bytes", i, v[i].first, v[i].p.size()); CHECK(v[i].masked == client, "masked %d", v[i].masked); if (client) masks.insert(S((char *) v[i].mask, 4)); }
	CHECK(!client || v.size() < 3 || masks.size() > 1, "masks do not change");
	Ws r(s, !client); int ret = feed(s, r, wire); CHECK(ret == 0, "result %d", ret); bool same = got == want; CHECK(same, "received%s", show_m(got).c_str()); if (want.size() > 1) nontrivial();
}
VP_TARGET_NOLEAK(send_all, 20000, "messages of all length forms which are sent, read by an independent reader and by the other end; non-trivial: more than one message");

static void hostile(Src &s) {
	Ws w(s, s.flip()); S data; size_t n = 1 + s.len(12); for (size_t i = 0; i < n; i++) { uint8_t m[4]; for (auto &x : m) x = (uint8_t) s.u(255); switch (s.weighted({4, 2, 2})) { case 0: data += frame((s.chance(2, 3) ? 0x80 : 0) | (int) s.pick({0, 1, 2, 9, 10}), s.bytes(s.u(12)), s.flip() ? m : NULL, (int) s.u(2)); break; case 1: data += s.bytes(s.u(6)); break; default: data += frame((int) s.u(255), s.bytes(s.u(8)), s.flip() ? m : NULL, (int) s.u(2), s.u(20)); } }
	desc("%s", show(data, 200).c_str()); if (s.chance(1, 6)) fail_at = 1 + s.u(2); int ret = feed(s, w, data); size_t t = 0; for (auto &m : got) t += m.p.size(); CHECK(t <= data.size(), "received more than was sent"); CHECK(ret == 0 || ret == RRR_READ_SOFT_ERROR || ret == RRR_READ_EOF, "result %d", ret); if (fail_at && got.size() >= fail_at) { CHECK(ret == RRR_READ_SOFT_ERROR && got.size() == fail_at, "failure was ignored"); } close(w.s[1]); w.s[1] = -1; if (!ret) { ret = g_ws_read(0); CHECK(ret, "end was not noticed"); } label(ret == RRR_READ_EOF ? "close" : "error"); CHECK(g_ws_send() == 0, "send"); parse_sent(sent); nontrivial();
}
VP_TARGET_NOLEAK(hostile, 60000, "frames put together at random, with any flags and lengths, and random bytes; non-trivial: all");

static void times(Src &s) {
	{ Ws w(s, true); unsigned t = s.flip() ? (unsigned) s.u(100) : (unsigned) s.pick({1, 60, 3600, 4294, 4295, 4300, 86400, 1000000}); uint64_t e = s.pick(std::vector<uint64_t>{0, 1, 59, 61, 3599, 4000, 4290, 5000, 86390, 86500, 2000000}); desc("timeout %u after %llu", t, (unsigned long long) e); nontrivial();
	CHECK(g_ws_timeout(t) == 0, "timeout at once"); CHECK(g_ws_ping(t) == 0, "ping"); g_ws_shift(e * 1000000); if (t && (e > (uint64_t) t ? e - t : t - e) > 3) { CHECK(g_ws_timeout(t) == (e > t), "timeout %d", g_ws_timeout(t)); CHECK(g_ws_ping(t) == 0, "ping"); CHECK(g_ws_waiting() == (e > t), "ping %d", g_ws_waiting());
		if (g_ws_waiting()) { // A ping which is not answered does not keep the connection alive; when it is answered the next ping comes after another interval
			CHECK(g_ws_send() == 0, "send"); CHECK(parse_sent(sent).size() == 1, "pings"); sent.clear(); if (s.flip()) { g_ws_shift((uint64_t) t * 3000000); CHECK(g_ws_timeout(t) == 1, "no timeout while waiting for a pong"); CHECK(g_ws_ping(t) == 0 && g_ws_send() == 0 && sent.empty(), "second ping before the pong"); }
			else if (t > 4) { CHECK(feed(s, w, frame(0x8a, "", NULL)) == 0, "pong"); CHECK(!g_ws_waiting(), "still waiting"); CHECK(g_ws_ping(t) == 0, "ping"); CHECK(!g_ws_waiting(), "next ping comes too early"); CHECK(g_ws_timeout(t) == 0, "timeout after data"); g_ws_shift((uint64_t) (t - 3) * 1000000); CHECK(g_ws_ping(t) == 0 && !g_ws_waiting() && !g_ws_timeout(t), "next ping comes too early"); g_ws_shift(6000000); CHECK(g_ws_ping(t) == 0 && g_ws_waiting() && g_ws_timeout(t), "next ping does not come"); } } } if (!t) CHECK(!g_ws_timeout(0) && !g_ws_waiting(), "disabled"); }
	S all[6]; for (auto &k : all) { Ws x(s, true); char *a = NULL, *b = NULL; g_ws_key(&a); g_ws_key(&b); CHECK(!strcmp(a, b), "key changed"); k = a; rrr_free(a); rrr_free(b); CHECK(k.size() == 24 && k.substr(22) == "==", "key %s", k.c_str()); } for (size_t i = 0; i < 21; i++) { bool diff = false; for (auto &k : all) if (k[i] != all[0][i]) diff = true; CHECK(diff || i == 0, "character %zu of the key is always '%c'", i, all[0][i]); }
}
VP_TARGET_NOLEAK(times, 2000, "timeouts and ping intervals up to 11 days with any time passed, and keys; non-trivial: all");
static void init() { vp_lib_init(); signal(SIGPIPE, SIG_IGN); }
VP_MAIN(init)
