// C36: cutting streams and datagrams into messages
#include "common.hpp"
#include <sys/socket.h>
#include <sys/un.h>
extern "C" {
#include "lib/read.h"
#include "lib/socket/rrr_socket_constants.h"
#include "lib/socket/rrr_socket_read.h"
}
VP_LOG_PREFIX
using namespace vp;
static uint64_t g_now;
extern "C" uint64_t __wrap_rrr_time_get_64(void) { return g_now; }
// L len16 data: message, S n x*n: to be skipped, Z: all until the end of the stream, E: error, H: hard error
struct Source { std::string rest, buf; int id; bool session = false, zero = false, eof_ok = false, skipped = false, bundle = false; uint64_t last = 0; size_t rl_bytes = 0; size_t target = 0; };
struct W { struct rrr_read_session_collection c; Src *s; std::vector<Source> v; int cur = -1; int rd_ret = 0; std::string piece; size_t done = 0, errs = 0, removed = 0, step = 0; std::vector<std::string> out; int cb_ret = 0; int cb_after = -1; bool real = false; std::vector<std::string> addr; bool opts = false; };
static W *w;
static Source &src_of(struct rrr_read_session *r) { if (!w->real) { uint16_t id; memcpy(&id, (char *) &r->src_addr + 2, 2); return w->v[id]; } if (w->v.size() == 1) return w->v[0]; std::string a((char *) &r->src_addr, r->src_addr_len); for (size_t i = 0; i < w->addr.size(); i++) if (w->addr[i] == a) return w->v[i]; FAIL("unknown sender"); abort(); }
// 0: complete of size t, 4: incomplete, 1, 2: error, 100: skip t, 11: until the end
static int parse(const std::string &b, size_t &t) {
	t = 0; if (b.empty()) return 4; switch (b[0]) { case 'L': if (b.size() < 3) return 4; t = 3 + rd_be((const uint8_t *) b.data() + 1, 2); return 0; case 'S': if (b.size() < 2) return 4; t = 2 + (uint8_t) b[1]; if (t > b.size()) return 4; return 100; case 'Z': return 11; case 'H': return 1; default: return 2; }
}
static int get_size(struct rrr_read_session *r, void *a) {
	CHECK(a == w, "argument"); Source &x = src_of(r); CHECK(std::string(r->rx_buf_ptr, r->rx_buf_wpos) == x.buf, "source %d: %llu bytes are presented, %zu are there: %s", x.id, (unsigned long long) r->rx_buf_wpos, x.buf.size(), show(std::string(r->rx_buf_ptr, r->rx_buf_wpos).substr(0, 50)).c_str());
	std::unique_ptr<char[]> p(new char[x.buf.size()]); memcpy(p.get(), r->rx_buf_ptr, x.buf.size()); size_t t; int k = parse(x.buf, t); x.target = 0;
	if (k == 0) { r->target_size = x.target = t; return RRR_READ_OK; } if (k == 11) { r->read_complete_method = RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ; x.zero = true; label("until the end"); return RRR_READ_OK; } if (k == 100) { r->rx_buf_skip = t; x.buf.erase(0, t); x.skipped = true; label("skip"); return w->s->flip() ? RRR_READ_OK : RRR_READ_INCOMPLETE; }
	if (k == 4) return RRR_READ_INCOMPLETE; return k;
}
static void drop(Source &x) { x.buf.clear(); x.session = false; x.zero = x.eof_ok = false; x.rl_bytes = 0; }
static void size_err(struct rrr_read_session *r, int hard, void *a) { CHECK(a == w, "argument"); size_t t; CHECK(parse(src_of(r).buf, t) == (hard ? 1 : 2), "error callback"); w->errs++; }
static int complete(struct rrr_read_session *r, void *a) {
	CHECK(a == w, "argument"); Source &x = src_of(r); std::string m(r->rx_buf_ptr, r->rx_buf_wpos); size_t t; int k = parse(x.buf, t); CHECK(k == 0 || (k == 11 && x.zero), "an incomplete message is handed over"); if (k == 11) t = x.buf.size();
	CHECK(t <= x.buf.size() && m == x.buf.substr(0, t), "source %d: message of %zu bytes, expected %zu: %s", x.id, m.size(), t, show(m.substr(0, 40)).c_str()); CHECK(r->target_size == t, "target size"); x.buf.erase(0, t); x.zero = false; w->done++; w->out.push_back(m); if (!x.buf.empty()) label("more in the buffer");
	if (w->s->chance(1, 8)) { rrr_free(r->rx_buf_ptr); r->rx_buf_ptr = NULL; } r->eof_ok_now = x.eof_ok = w->s->flip(); if ((int) w->done == w->cb_after) return w->cb_ret; return 0;
}
static int do_read(char *buf, rrr_biglength *n, rrr_biglength max, void *a) { CHECK(a == w, "argument"); CHECK(w->piece.size() <= max && max == w->step, "step is %llu", (unsigned long long) max); memcpy(buf, w->piece.data(), w->piece.size()); *n = w->piece.size(); return w->rd_ret; }
static struct rrr_read_session *get_over(void *) { return rrr_read_session_collection_get_session_with_overshoot(&w->c); }
static struct rrr_read_session *get_ses(void *) {
	struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); ss.ss_family = AF_INET; uint16_t id = (uint16_t) w->cur; memcpy((char *) &ss + 2, &id, 2); int is_new = -1; for (auto &x : w->v) if (x.session && x.last + 30000000 < g_now) { if (!x.buf.empty()) label("forgotten"); drop(x); }
	struct rrr_read_session *r = rrr_read_session_collection_maintain_and_find_or_create(&is_new, &w->c, (struct sockaddr *) &ss, w->v[w->cur].id % 2 ? 8 : 16); CHECK(r && is_new == !w->v[w->cur].session, "session is %s", is_new ? "new" : "old"); if (is_new) { w->v[w->cur].session = true; w->v[w->cur].last = g_now; } return r;
}
static void rm(struct rrr_read_session *r, void *a) { CHECK(a == w, "argument"); drop(src_of(r)); w->removed++; rrr_read_session_collection_remove_session(&w->c, r); }
static int opt(struct rrr_read_session *r, void *) { r->socket_options = 5; w->opts = true; return 0; }
static std::string frames(Src &s, size_t max) {
	std::string o; size_t n = s.len(6), i; for (i = 0; i < n; i++) switch (s.weighted({20, 6, 1, 1, 1})) { case 0: case 1: if (s.chance(1, 4)) { size_t k = s.n(40); o += "S"; o += (char) k; o += std::string(k, 'g'); } else { size_t l = max > 1000 && s.chance(1, 20) ? s.n(20000) : s.chance(1, 4) ? s.n(max) : s.n(12); o += "L"; wr_be(o, l, 2); o += s.bytes_cheap(l); } break; case 2: if (s.flip()) { o += "Z" + s.bytes(s.n(30)); return o; } break; case 3: if (s.chance(1, 3)) { o += "E"; return o; } break; case 4: if (s.chance(1, 3)) { o += "H"; return o; } break; }
	if (s.chance(1, 4) && !o.empty()) o.resize(s.n(o.size() - 1)); return o;
}
static void finish(size_t errors) {
	bool any = false; for (auto &x : w->v) if (!x.buf.empty()) { any = true; show(x.buf); } std::string dd; for (auto &x : w->v) dd += show(x.buf.substr(0, 30)) + (x.session ? "+ " : "- "); CHECK(!!rrr_read_session_collection_has_unprocessed_data(&w->c) == any, "unprocessed data: %d %s", any, dd.c_str()); (void) errors;
	rrr_read_session_collection_clear(&w->c); if (w->done > 1) nontrivial();
}
static void sources(Src &s) {
	W ww; w = &ww; ww.s = &s; rrr_read_session_collection_init(&ww.c); g_now = 1700000000000000ull; size_t k = s.flip() ? 1 : 2 + s.n(2); ww.step = s.flip() ? 1 + s.n(20) : s.pick({100, 4096, 8192, 8193, 20000}); for (size_t i = 0; i < k; i++) { Source x; x.id = (int) i; x.rest = frames(s, ww.step > 20 ? 3000 : 100); ww.v.push_back(x); } size_t max = s.flip() ? 0 : 200 + s.n(30000); bool flush = s.flip(), rl = k == 1 && s.chance(1, 3); size_t rl_max = 1 + s.n(60); uint64_t rl_iv = s.pick({1000, 100000, 1000000}), rl_t = 0; if (s.chance(1, 8)) { ww.cb_after = 1 + (int) s.n(4); ww.cb_ret = s.pick({RRR_READ_SOFT_ERROR, RRR_READ_HARD_ERROR, RRR_READ_EOF}); }
	desc("%zu sources, step %zu, at most %zu%s%s", k, ww.step, max, flush ? ", flush" : "", rl ? ", limited rate" : ""); size_t idle = 0;
	for (size_t calls = 0; calls < 20000 && idle < 6; calls++) {
		Source *over = NULL; struct rrr_read_session *o = rrr_read_session_collection_get_session_with_overshoot(&ww.c); if (o) { over = &src_of(o); CHECK(std::string(o->rx_overshoot, o->rx_overshoot_size) == over->buf, "data kept for later"); }
		std::vector<int> can; for (auto &x : ww.v) if (!x.rest.empty()) can.push_back(x.id); ww.piece.clear(); ww.rd_ret = 0; uint64_t by = 77; size_t done = ww.done, removed = ww.removed; bool eof_expect = false; int expect = -1; ww.cur = can.empty() ? (int) s.n(k - 1) : s.pick(can);
		if (s.chance(1, 10)) g_now += s.pick({500, 1000, 100001, 1000001}); if (k > 1 && s.chance(1, 60)) g_now += 29999000 + s.u(2000);
		Source &x = ww.v[(size_t) ww.cur]; bool limited = false;
		if (rl && !over && x.session) { if (g_now - rl_t > rl_iv) { rl_t = g_now; x.rl_bytes = 0; } else if (x.rl_bytes > rl_max) limited = true; }
		struct rrr_read_session *rs = rl ? ww.c.ptr_first : NULL;
		std::vector<Source> keep; uint64_t keep_t = rl_t; if (!over && !limited) { keep = ww.v;
			for (auto &y : ww.v) if (y.session && y.last + 30000000 < g_now) { if (!y.buf.empty()) label("forgotten"); drop(y); if (rl) rl_t = 0; }
			if (x.rest.empty() || s.chance(1, 12)) { idle += x.rest.empty(); if (s.chance(1, 3) && x.rest.empty()) { ww.rd_ret = RRR_READ_EOF; eof_expect = true; if (x.zero && x.session) expect = RRR_READ_EOF; else expect = x.session && x.eof_ok && x.buf.empty() ? RRR_READ_EOF : RRR_READ_SOFT_ERROR; } else if (s.chance(1, 20) && !x.zero) { ww.rd_ret = s.flip() ? RRR_READ_HARD_ERROR : RRR_READ_SOFT_ERROR; expect = ww.rd_ret; } else expect = x.zero ? -2 : RRR_READ_INCOMPLETE; if (expect == -2) { expect = RRR_READ_EOF; eof_expect = true; } }
			else { size_t n = s.flip() ? ww.step : 1 + s.n(ww.step - 1); n = std::min(n, x.rest.size()); ww.piece = x.rest.substr(0, n); x.rest.erase(0, n); x.buf += ww.piece; x.eof_ok = false; x.last = g_now; idle = 0; x.rl_bytes += n; }
		}
		if (ww.rd_ret == RRR_READ_HARD_ERROR) { ww.v = keep; rl_t = keep_t; }
		size_t had = 0; if (over) had = over->buf.size(); else had = x.buf.size(); bool was_zero = over ? over->zero : x.zero;
		bool hard = ww.rd_ret == RRR_READ_HARD_ERROR; size_t sz = 0; int pk = 4; { Source &y = over ? *over : x; pk = parse(y.buf, sz); } Source &y = over ? *over : x; std::string before = y.buf;
		int r = rrr_read_message_using_callbacks(&by, 1, ww.step, max, flush ? RRR_READ_MESSAGE_FLUSH_OVERSHOOT : 0, rs, rl_iv, rl && rs ? rl_max : 0, get_size, size_err, complete, do_read, get_over, get_ses, rm, opt, &ww);
		if (limited) { CHECK(r == RRR_READ_RATELIMIT && by == 0, "reading is not limited: returned %d", r); label("limited"); g_now += s.flip() ? 100 : rl_iv + 1; continue; }
		if (!over) CHECK(by == ww.piece.size(), "%llu bytes were read, expected %zu", (unsigned long long) by, ww.piece.size());
		if (hard) { CHECK(r == RRR_READ_HARD_ERROR, "returned %d", r); continue; }
		if (expect == RRR_READ_EOF && was_zero && (int) done + 1 == ww.cb_after) expect = ww.cb_ret;
		if (expect >= 0) { CHECK(r == expect, "without data %d is returned, expected %d (source %d, zero %d, session %d, %zu bytes, %s)", r, expect, x.id, was_zero, x.session, had, show(before).c_str()); if (was_zero && eof_expect) CHECK(ww.done == done + 1, "no message at the end"); else CHECK(ww.done == done, "message out of nothing"); if (r != RRR_READ_INCOMPLETE) CHECK(ww.removed == removed + 1, "session is kept"); if (eof_expect && expect == RRR_READ_EOF) label("end"); if (rl && r != RRR_READ_INCOMPLETE) rl_t = 0; if (x.session && r == RRR_READ_INCOMPLETE) {} continue; }
		// data
		if (max && had > max) { CHECK(r == RRR_READ_SOFT_ERROR && ww.done == done && ww.removed == removed + 1, "%zu bytes are accepted, at most %zu", had, max); label("too much"); rl_t = 0; continue; }
		if (was_zero || pk == 11 || pk == 4 || pk == 100 || (pk == 0 && sz > had)) { CHECK(r == RRR_READ_INCOMPLETE && ww.done == done, "returned %d with an incomplete message", r); continue; }
		if (pk == 1 || pk == 2) { CHECK(r == pk && ww.removed == removed + 1, "error %d is returned as %d", pk, r); label("error"); rl_t = 0; continue; }
		CHECK(ww.done > done, "a complete message is not handed over"); if ((int) ww.done == ww.cb_after) { CHECK(r == ww.cb_ret && ww.removed == removed + 1, "callback returns %d but %d is returned", ww.cb_ret, r); label("callback fails"); rl_t = 0; continue; }
		if (!flush) CHECK(ww.done == done + 1 && r == 0, "%zu messages in one call, returned %d", ww.done - done, r); else if (r) { label("error in flush"); CHECK(ww.removed == removed + 1, "session is kept"); rl_t = 0; } else { std::string b = y.buf; CHECK(rrr_read_session_collection_get_session_with_overshoot(&ww.c) == NULL || parse(b, sz) == 4 || y.skipped || max, "complete messages remain"); if (ww.done > done + 1) label("several at once"); }
		y.skipped = false;
	}
	finish(0);
}
VP_TARGET_NOLEAK(sources, 40000, "at least two messages are received");
// real file descriptors
static void sockets(Src &s) {
	W ww; w = &ww; ww.s = &s; ww.real = true; rrr_read_session_collection_init(&ww.c); g_now = 1700000000000000ull; int kind = (int) s.u(2); int fd[2] = {-1, -1}; std::vector<int> snd; size_t k = kind == 2 ? 2 : 1; int flags = 0;
	if (kind == 0) { CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, fd) == 0, "socketpair"); flags = s.flip() ? RRR_SOCKET_READ_METHOD_RECVFROM : RRR_SOCKET_READ_METHOD_RECV; snd.push_back(fd[1]); } else if (kind == 1) { CHECK(pipe2(fd, O_NONBLOCK) == 0, "pipe"); flags = RRR_SOCKET_READ_METHOD_READ_FILE | RRR_SOCKET_READ_NO_GETSOCKOPTS; snd.push_back(fd[1]); }
	else { fd[0] = socket(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; socklen_t l = sizeof(sa_family_t); CHECK(bind(fd[0], (struct sockaddr *) &a, l) == 0, "bind"); l = sizeof a; getsockname(fd[0], (struct sockaddr *) &a, &l); for (size_t i = 0; i < k; i++) { int f = socket(AF_UNIX, SOCK_DGRAM | SOCK_NONBLOCK, 0); struct sockaddr_un b; memset(&b, 0, sizeof b); b.sun_family = AF_UNIX; CHECK(bind(f, (struct sockaddr *) &b, sizeof(sa_family_t)) == 0 && connect(f, (struct sockaddr *) &a, l) == 0, "connect"); socklen_t bl = sizeof b; getsockname(f, (struct sockaddr *) &b, &bl); ww.addr.push_back(std::string((char *) &b, bl)); snd.push_back(f); } flags = RRR_SOCKET_READ_METHOD_RECVFROM; }
	if (s.flip()) flags |= RRR_SOCKET_READ_CHECK_EOF; else if (kind == 0) flags |= RRR_SOCKET_READ_CHECK_POLLHUP; else flags |= RRR_SOCKET_READ_CHECK_EOF; bool first_ok = s.flip(); if (first_ok) flags |= RRR_SOCKET_READ_FIRST_EOF_OK; if (s.flip()) flags |= RRR_SOCKET_READ_USE_POLL; if (kind == 2) flags &= ~(RRR_SOCKET_READ_USE_POLL); bool flush = s.flip(); if (flush) flags |= RRR_READ_MESSAGE_FLUSH_OVERSHOOT;
	for (size_t i = 0; i < k; i++) { Source x; x.id = (int) i; x.rest = frames(s, 300); ww.v.push_back(x); } size_t step = kind == 2 ? 4096 : s.flip() ? 1 + s.n(30) : 8192, total = 0; std::vector<std::string> flight(k); desc("%s, step %zu", s.pick({kind == 0 ? "stream" : kind == 1 ? "pipe" : "datagrams"}), step);
	bool dead = false, eof = false; size_t bad = 0; int last = 0;
	for (size_t calls = 0; calls < 60000 && !dead; calls++) {
		bool left = false; for (size_t i = 0; i < k; i++) { if (ww.v[i].rest.empty()) continue; left = true; if (s.flip() || kind == 2) { size_t n = std::min<size_t>(ww.v[i].rest.size(), s.flip() ? 1 + s.n(8) : 3000); ssize_t r = write(snd[i], ww.v[i].rest.data(), n); if (r > 0) { if (kind == 2) { flight[i] = ww.v[i].rest.substr(0, (size_t) r); } else flight[0] += ww.v[i].rest.substr(0, (size_t) r); ww.v[i].rest.erase(0, (size_t) r); if (kind == 2) { ww.cur = (int) i; break; } } } }
		uint64_t by = 0; bool none = !left && rrr_read_session_collection_get_session_with_overshoot(&ww.c) == NULL; bool empty = true; for (auto &f : flight) if (!f.empty()) empty = false;
		if (none && empty) { if (eof) break; if (kind != 2 && s.flip()) { close(snd[0]); snd[0] = -1; eof = true; Source &x = ww.v[0]; bool okay = x.session ? x.eof_ok && x.buf.empty() : first_ok; bool z = x.zero; size_t d = ww.done; int r = rrr_socket_read_message_default(&by, &ww.c, fd[0], 1, step, 0, flags, 0, 0, get_size, &ww, size_err, &ww, complete, &ww); CHECK(r == (z || okay ? RRR_READ_EOF : RRR_READ_SOFT_ERROR), "the end gives %d, data %s", r, z ? "until the end" : okay ? "complete" : "incomplete"); CHECK(ww.done == d + (z ? 1 : 0), "message at the end"); drop(x); label("closed"); } break; }
		// what will be read: datagrams come whole, streams up to the step
		do {
			bool over = rrr_read_session_collection_get_session_with_overshoot(&ww.c) != NULL; size_t rd = 0; int from = kind == 2 ? ww.cur : 0; if (!over) { for (size_t i = 0; i < k; i++) if (!flight[i].empty()) from = (int) i; std::string &f = flight[(size_t) (from < 0 ? 0 : from)]; rd = std::min(step, f.size()); Source &x = ww.v[(size_t) (from < 0 ? 0 : from)]; x.buf += f.substr(0, rd); if (kind == 2) f.clear(); else f.erase(0, rd); if (!over && !rd && x.zero) break; if (rd) { x.eof_ok = false; x.session = true; } }
			std::vector<std::string> pre; for (auto &x : ww.v) pre.push_back(x.buf); size_t d = ww.done, e = ww.errs; by = 0; int r = last = rrr_socket_read_message_default(&by, &ww.c, fd[0], 1, step, 0, flags, 0, 0, get_size, &ww, size_err, &ww, complete, &ww); if (!over) CHECK(by == rd, "%llu bytes were read, %zu are there", (unsigned long long) by, rd); total += by;
			if (r == RRR_READ_SOFT_ERROR || r == RRR_READ_HARD_ERROR) { CHECK(ww.errs == e + 1, "error %d", r); dead = true; label("error"); } else CHECK(r == 0 || r == RRR_READ_INCOMPLETE, "returned %d", r); if (r == 0) CHECK(ww.done > d, "success without message");
		} while (kind == 2 && !dead && rrr_read_session_collection_get_session_with_overshoot(&ww.c));
	}
	(void) bad; if (!dead) { for (auto &x : ww.v) { size_t t; int p = parse(x.buf, t); CHECK(p == 4 || p == 11 || (p == 0 && t > x.buf.size()), "a complete message was not handed over"); } finish(0); } else { rrr_read_session_collection_clear(&ww.c); }
	for (int f : snd) if (f >= 0) close(f); close(fd[0]);
}
VP_TARGET_NOLEAK(sockets, 6000, "at least two messages are received");
static void init() { vp_lib_init(); }
VP_MAIN(init)
