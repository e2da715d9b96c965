// C10: MQTT packets are decoded as they were encoded, malformed ones are refused, and assembling gives back what was parsed
#include "model_topic.hpp"
#include "c10_glue.h"
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

struct Prop { int id; uint32_t num = 0; S a, b; };
typedef std::vector<Prop> Props;
struct Sub { S t; uint8_t o; };
struct Pkt {
	int type = 0, ver = 0, flags = 0, id = 0, reason = 0; bool reason_set = false, short_form = false, no_props = false;
	int cflags = 0, ka = 0; S name = "MQTT", client, wtopic, wmsg, user, pass, topic, acks, payload; Props p, wp; std::vector<Sub> subs;
};
static char ptype(int id) {
	switch (id) {
		case 1: case 0x17: case 0x19: case 0x24: case 0x25: case 0x28: case 0x29: case 0x2a: return '1';
		case 2: case 0x11: case 0x18: case 0x27: return '4';
		case 3: case 8: case 0x12: case 0x15: case 0x1a: case 0x1c: case 0x1f: return 's';
		case 9: case 0x16: return 'b';
		case 0xb: return 'v';
		case 0x13: case 0x21: case 0x22: case 0x23: return '2';
		case 0x26: return 'p';
		default: return 0;
	}
}
static const std::vector<int> pids = {0x26, 9, 0x16, 3, 8, 0xb, 1, 2, 0x11, 0x12, 0x13, 0x15, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22, 0x23, 0x24, 0x25, 0x27, 0x28, 0x29, 0x2a};

static void e_vint(S &o, uint32_t v) { do { uint8_t b = v & 127; v >>= 7; o += (char) (b | (v ? 128 : 0)); } while (v); }
static void e_str(S &o, const S &s) { wr_be(o, s.size(), 2); o += s; }
static void e_props(S &o, const Props &ps) {
	S b; for (auto &p : ps) { b += (char) p.id; switch (ptype(p.id)) { case '1': b += (char) p.num; break; case '2': wr_be(b, p.num, 2); break; case '4': wr_be(b, p.num, 4); break; case 'v': e_vint(b, p.num); break; case 'p': e_str(b, p.a); e_str(b, p.b); break; default: e_str(b, p.a); } }
	e_vint(o, (uint32_t) b.size()); o += b;
}
static S body(const Pkt &k) {
	S o; bool v5 = k.ver == 5;
	switch (k.type) {
		case 1: e_str(o, k.name); o += (char) k.ver; o += (char) k.cflags; wr_be(o, k.ka, 2); if (v5) e_props(o, k.p); e_str(o, k.client);
			if (k.cflags & 4) { if (v5) e_props(o, k.wp); e_str(o, k.wtopic); e_str(o, k.wmsg); } if (k.cflags & 128) e_str(o, k.user); if (k.cflags & 64) e_str(o, k.pass); break;
		case 2: o += (char) k.flags; o += (char) k.reason; if (v5) e_props(o, k.p); break;
		case 3: e_str(o, k.topic); if (k.flags & 6) wr_be(o, k.id, 2); if (v5) e_props(o, k.p); o += k.payload; break;
		case 4: case 5: case 6: case 7: wr_be(o, k.id, 2); if (v5 && !k.short_form) { o += (char) k.reason; if (!k.no_props) e_props(o, k.p); } break;
		case 8: wr_be(o, k.id, 2); if (v5) e_props(o, k.p); for (auto &s : k.subs) { e_str(o, s.t); o += (char) s.o; } break;
		case 10: wr_be(o, k.id, 2); if (v5) e_props(o, k.p); for (auto &s : k.subs) e_str(o, s.t); break;
		case 9: wr_be(o, k.id, 2); if (v5) e_props(o, k.p); o += k.acks; break;
		case 11: wr_be(o, k.id, 2); if (v5) { e_props(o, k.p); o += k.acks; } break;
		case 14: if (v5 && !k.short_form) { o += (char) k.reason; if (!k.no_props) e_props(o, k.p); } break;
	}
	return o;
}
static int hflags(const Pkt &k) { return k.type == 3 ? k.flags : k.type == 6 || k.type == 8 || k.type == 10 ? 2 : 0; }
static S packet(int type, int flags, const S &b) { S o(1, (char) (type << 4 | flags)); e_vint(o, (uint32_t) b.size()); return o + b; }

// What the parsed packet must look like, in the form of the glue
static S hx(const S &s) { S r; char b[4]; for (uint8_t c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
static S d_props(const char *k, const Props &ps) { S r = S(" ") + k + "["; char b[32]; for (auto &p : ps) { snprintf(b, sizeof b, "%02x", p.id); r += b; if (strchr("124v", ptype(p.id))) r += " " + std::to_string(p.num); else { r += " d=" + hx(p.a); if (ptype(p.id) == 'p') r += " v=" + hx(p.b); } r += ";"; } return r + "]"; }
static S num(const char *k, int v) { return S(" ") + k + "=" + std::to_string(v); }
static int v31_to_v5(int r) { static const int m[] = {0, 0x84, 0x85, 0x88, 0x86, 0x87}; return m[r]; }
static S dump(const Pkt &k) {
	S r = "type=" + std::to_string(k.type) + num("ver", k.ver);
	switch (k.type) {
		case 1: r += num("fl", k.cflags) + num("ka", k.ka) + " id=" + hx(k.client) + d_props("p", k.p); if (k.cflags & 4) r += d_props("wp", k.wp) + " wt=" + hx(k.wtopic) + " willmsg=" + hx(k.wmsg);
			r += " user=" + (k.cflags & 128 ? hx(k.user) : "~") + " pass=" + (k.cflags & 64 ? hx(k.pass) : "~"); break;
		case 2: r += num("fl", k.flags) + num("sp", k.flags & 1) + num("reason", k.ver == 5 ? k.reason : v31_to_v5(k.reason)) + d_props("p", k.p); break;
		case 3: r += num("fl", k.flags) + num("pid", k.flags & 6 ? k.id : 0) + " topic=" + hx(k.topic); for (auto &l : t_levels(k.topic)) r += " lvl=" + hx(l); r += d_props("p", k.p); break;
		case 4: case 5: case 6: case 7: r += num("pid", k.id) + num("reason", k.reason) + d_props("p", k.p); break;
		case 8: case 10: { r += num("pid", k.id) + d_props("p", k.p); std::vector<Sub> u; for (auto &s : k.subs) { bool f = false; for (auto &x : u) if (x.t == s.t) { x.o = s.o; f = true; } if (!f) u.push_back(s); }
			for (auto &s : u) { char b[8]; snprintf(b, sizeof b, ":%d%d%d%d", s.o >> 4 & 3, s.o >> 3 & 1, s.o >> 2 & 1, s.o & 3); r += " sub=" + hx(s.t) + b; } break; }
		case 9: case 11: r += num("pid", k.id) + d_props("p", k.p) + " ack=" + hx(k.acks); break;
		case 14: r += num("reason", k.reason) + d_props("p", k.p); break;
	}
	return r;
}

// The reference decoder: refuses what the standards call malformed, with the leniencies of the implementation which are taken as given (see the note of C10)
struct Bad {};
struct Rd {
	const S &d; size_t i = 0; explicit Rd(const S &s) : d(s) {}
	size_t left() const { return d.size() - i; }
	uint32_t n(int k) { if (left() < (size_t) k) throw Bad(); uint32_t v = (uint32_t) rd_be((const uint8_t *) d.data() + i, k); i += k; return v; }
	S blob() { size_t l = n(2); if (left() < l) throw Bad(); S r = d.substr(i, l); i += l; return r; }
	uint32_t vint() { uint32_t v = 0; for (int k = 0;; k++) { if (k > 3) throw Bad(); uint32_t b = n(1); v |= (b & 127) << (7 * k); if (!(b & 128)) return v; } }
	S str(size_t min = 0);
	Props props();
};
static bool utf8_ok(const S &s) {
	for (size_t i = 0; i < s.size();) {
		uint8_t c = (uint8_t) s[i]; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
		if (!c || !n || i + n > s.size()) return false;
		uint32_t v = n == 1 ? c : c & (0xff >> (n + 1)); for (size_t k = 1; k < n; k++) { uint8_t d = (uint8_t) s[i + k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); }
		if ((n == 3 && (v < 0x800 || (v >= 0xd800 && v <= 0xdfff))) || (n == 4 && (v < 0x10000 || v > 0x10ffff))) return false;
		i += n;
	}
	return true;
}
S Rd::str(size_t min) { S r = blob(); if (r.size() < min || !utf8_ok(r)) throw Bad(); return r; }
Props Rd::props() {
	uint32_t l = vint(); if (left() < l) throw Bad(); S sub = d.substr(i, l); i += l; Rd r(sub); Props ps;
	while (r.left()) { Prop p; p.id = (int) r.n(1); switch (ptype(p.id)) { case '1': p.num = r.n(1); break; case '2': p.num = r.n(2); break; case '4': p.num = r.n(4); break; case 'v': p.num = r.vint(); break; case 's': p.a = r.str(); break; case 'b': p.a = r.blob(); break; case 'p': p.a = r.str(); p.b = r.str(); break; default: throw Bad(); } ps.push_back(p); }
	return ps;
}
static bool in(int v, std::initializer_list<int> l) { for (int x : l) if (x == v) return true; return false; }
static void topic_name(const S &t) { if (t.find_first_of("#+") != S::npos) throw Bad(); }
static bool reason_ok(int type, int r) {
	switch (type) {
		case 2: return in(r, {0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f});
		case 4: case 5: return in(r, {0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99, 0x92});
		case 6: case 7: return in(r, {0, 0x92});
		case 9: return in(r, {0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2});
		case 11: return in(r, {0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91});
	}
	return true;
}
// returns 1: good, 0: malformed, -1: cannot be told yet (no CONNECT seen)
static int decode(int h, const S &b, int ver, Pkt &k) {
	try {
		k = Pkt(); k.type = h >> 4; k.flags = h & 15; k.ver = ver; Rd r(b);
		if (k.type == 0 || k.type == 15) return 0;
		if (k.type != 3 && k.flags != hflags(k)) return 0;
		if (k.type != 3) k.flags = 0;
		if (k.type != 1 && !ver) return -1;
		switch (k.type) {
			case 1: { k.name = r.blob(); S nm = k.name.c_str(); for (auto &c : nm) c = (char) toupper(c); if (k.name.size() > 6) return 0; k.ver = (int) r.n(1);
				if (!(k.ver == 3 && nm == "MQISDP") && !((k.ver == 4 || k.ver == 5) && nm == "MQTT")) return 0;
				int f = k.cflags = (int) r.n(1); if (f & 1 || (!(f & 4) && f & 0x38) || (f & 0x18) == 0x18 || (k.ver < 5 && (f & 0xc0) == 0x40)) return 0;
				k.ka = (int) r.n(2); if (k.ver == 5) k.p = r.props(); k.client = r.str();
				if (f & 4) { if (k.ver == 5) k.wp = r.props(); k.wtopic = r.str(1); topic_name(k.wtopic); k.wmsg = r.blob(); }
				if (f & 128) k.user = r.str(1); if (f & 64) k.pass = r.str(1); break; }
			case 2: k.flags = (int) r.n(1); if (k.flags & 0xfe) return 0; k.reason = (int) r.n(1); if (ver == 5 ? !reason_ok(2, k.reason) : k.reason > 5) return 0; if (ver == 5) k.p = r.props(); break;
			case 3: if ((k.flags & 6) == 6 || k.flags == 8 || k.flags == 9) return 0; k.topic = r.str(1); topic_name(k.topic); if (k.flags & 6 && !(k.id = (int) r.n(2))) return 0; if (ver == 5) k.p = r.props(); k.payload = b.substr(r.i); r.i = b.size(); break;
			case 4: case 5: case 6: case 7: if (!(k.id = (int) r.n(2))) return 0; if (!r.left()) { k.short_form = true; break; } if (ver < 5) return 0; k.reason = (int) r.n(1); if (!reason_ok(k.type, k.reason)) return 0; if (r.left()) k.p = r.props(); else k.no_props = true; break;
			case 8: case 10: if (!(k.id = (int) r.n(2))) return 0; if (ver == 5) k.p = r.props(); if (!r.left()) return 0;
				while (r.left()) { Sub s; s.t = r.str(1); s.o = 0; if (!t_filter_ok(s.t)) return 0; if (k.type == 8) { s.o = (uint8_t) r.n(1); if ((s.o & 3) == 3 || s.o & 0xc0 || (s.o & 0x30) == 0x30 || (ver < 5 && s.o & 0xfc)) return 0; } k.subs.push_back(s); } break;
			case 9: case 11: if (!(k.id = (int) r.n(2))) return 0; if (k.type == 11 && ver < 5) break; if (ver == 5) k.p = r.props(); k.acks = b.substr(r.i); if (k.acks.empty()) return 0; r.i = b.size();
				for (uint8_t c : k.acks) if (ver == 5 ? !reason_ok(k.type, c) : !in(c, {0, 1, 2, 0x80})) return 0; break;
			case 12: case 13: break;
			case 14: if (ver < 5) break; if (!r.left()) { k.short_form = true; break; } k.reason = (int) r.n(1); if (r.left()) k.p = r.props(); else k.no_props = true; break;
		}
		return r.left() ? 0 : 1;
	}
	catch (Bad &) { return 0; }
}

static S g_str(Src &s, size_t max = 20) { return s.chance(1, 200) ? S(60000 + s.u(5535), 'q') : s.chance(1, 10) ? S(40 + s.u(200), 'z') : gen_utf8(s, max); }
static S non_empty(S x) { return x.empty() ? "a" : x; }
static Props g_props(Src &s) {
	Props ps; size_t n = s.chance(1, 40) ? 20 + s.u(60) : s.len(5);
	for (size_t i = 0; i < n; i++) { Prop p; p.id = s.pick(pids); switch (ptype(p.id)) { case '1': p.num = (uint32_t) s.n(255); break; case '2': p.num = (uint32_t) s.n(65535); break; case '4': p.num = (uint32_t) s.n(0xffffffff); break; case 'v': p.num = (uint32_t) s.n(0xfffffff); break; case 'b': p.a = s.bytes(s.len(s.chance(1, 20) ? 300 : 20)); break; case 'p': p.a = g_str(s); p.b = g_str(s); break; default: p.a = g_str(s); } ps.push_back(p); }
	return ps;
}
static int g_reason(Src &s, int type) { for (int k = 0; k < 40; k++) { int r = s.flip() ? (int) s.u(0x22) + 0x80 : (int) s.u(0x11); if (reason_ok(type, r)) return r; } return 0; }
static Pkt gen(Src &s, int type, int ver) {
	Pkt k; k.type = type; k.ver = ver; bool v5 = ver == 5; if (v5) k.p = g_props(s); k.id = 1 + (int) s.n(65534);
	switch (type) {
		case 1: k.name = ver == 3 ? s.pick({"MQIsdp", "MQISDP"}) : s.pick({"MQTT", "MQTT", "mqTT"}); k.ka = (int) s.n(65535); k.client = g_str(s); if (s.flip()) k.cflags |= 2;
			if (s.flip()) { k.cflags |= 4 | (int) s.u(2) << 3 | (s.flip() ? 32 : 0); if (v5) k.wp = g_props(s); k.wtopic = t_topic(s); k.wmsg = s.bytes(s.len(40)); }
			if (s.flip()) { k.cflags |= 128; k.user = non_empty(g_str(s)); } if (s.flip() && (v5 || k.cflags & 128)) { k.cflags |= 64; k.pass = non_empty(g_str(s)); } break;
		case 2: k.flags = s.flip(); k.reason = v5 ? g_reason(s, 2) : (int) s.u(5); break;
		case 3: k.flags = (int) s.u(2) << 1 | (int) s.flip(); if (k.flags & 6 && s.flip()) k.flags |= 8; k.topic = t_topic(s); k.payload = s.bytes(s.len(60)); break;
		case 4: case 5: case 6: case 7: if (v5) { k.reason = g_reason(s, type); if (k.p.empty()) { k.no_props = s.flip(); if (!k.reason && s.flip()) { k.short_form = true; } } } break;
		case 8: case 10: for (size_t n = 1 + s.len(5); n--;) { Sub x; x.t = t_filter(s, t_topic(s)); if (!t_filter_ok(x.t)) x.t = "a/+/#"; if (!k.subs.empty() && s.chance(1, 5)) x.t = s.pick(k.subs).t; x.o = type == 8 ? (uint8_t) s.u(2) : 0; if (v5 && type == 8) x.o |= (uint8_t) (s.u(2) << 4 | s.u(3) << 2); k.subs.push_back(x); } break;
		case 9: case 11: if (type == 9 || v5) for (size_t n = 1 + s.len(5); n--;) k.acks += (char) (v5 ? g_reason(s, type) : (int) s.pick(std::vector<int>{0, 1, 2, 0x80})); break;
		case 14: if (v5) { k.reason = g_reason(s, 2); if (k.p.empty()) { k.no_props = s.flip(); if (!k.reason) k.short_form = s.flip(); } } break;
	}
	return k;
}
// the text of what the parser holds is freed with free() or with the allocator of the library
struct Dump { char *p; explicit Dump(rrr_mqtt_p *x) : p(g_dump(x)) {} ~Dump() { free(p); } };

// Feeds the bytes in pieces, each time from a buffer of exactly the size (the buffer moves, as it may when it is reallocated). Returns as g_feed.
static int feed(const S &wire, size_t len, const std::vector<size_t> &cuts, int ver, std::vector<char *> &bufs, const char **last) {
	int r = 0; size_t from = 0;
	std::vector<size_t> c = cuts; c.push_back(wire.size());
	for (size_t n : c) {
		if (n <= from && n != wire.size()) continue; from = n;
		char *b = (char *) malloc(n ? n : 1); memcpy(b, wire.data(), n); for (size_t i = 0; i < bufs.size(); i++) { free(bufs[i]); } bufs.clear(); bufs.push_back(b); *last = b;
		r = g_feed(b, n, ver);
		if (r) { CHECK(r < 0 || n >= len, "complete after %zu of %zu bytes", n, len); return r; }
	}
	return r;
}
struct Bufs { std::vector<char *> v; ~Bufs() { for (auto p : v) free(p); } };

static void check_packet(const S &wire, size_t len, const Pkt &want, const char *buf, Src &s, int ver_given) {
	(void) ver_given; size_t pp; rrr_mqtt_p *p = g_extract(&pp); S w = dump(want);
	{ Dump d(p); CHECK(w == d.p, "parsed as %s, expected %s", d.p, w.c_str()); }
	if (want.type == 3) {
		if (want.payload.empty()) CHECK(pp == (size_t) -1, "payload at %zu of a packet without", pp);
		else { CHECK(pp != (size_t) -1 && pp + want.payload.size() == len && !memcmp(buf + pp, want.payload.data(), want.payload.size()), "payload at %zu", pp); CHECK(g_set_payload(p, buf + pp, len - pp) == 0, "payload"); }
	}
	// assembling gives the same packet
	Pkt c = want; c.short_form = false; c.no_props = false; if (c.type == 14) c.p.clear();          // the properties of DISCONNECT are never sent
	if (c.type == 1) c.name = c.ver == 3 ? "MQISDP" : "MQTT";
	if (c.type == 3) c.payload = "";                                                                // appended by the connection
	if (c.type == 8 || c.type == 10) { c.subs.clear(); for (auto &x : want.subs) { bool f = false; for (auto &y : c.subs) if (y.t == x.t) { y.o = x.o; f = true; } if (!f) c.subs.push_back(x); } }
	if (c.type == 9 || c.type == 11) CHECK(g_suback_fill(p) == 0, "filling the acknowledgement");
	auto assemble = [&](rrr_mqtt_p *q, const char *what) { char *d = NULL; size_t n = 0; CHECK(g_assemble(&d, &n, q) == 0, "assemble"); S got(d ? d : "", n); g_free(d); S exp = body(c); CHECK(got == exp, "%s assembled as %s, expected %s", what, show(got).c_str(), show(exp).c_str()); };
	assemble(p, "packet");
	if (want.type == 3) {
		rrr_mqtt_p *q = g_clone(p); CHECK(q, "clone"); bool first = s.flip(); if (first) { g_unref(p); p = NULL; }
		{ Pkt z = want; z.id = 0; w = dump(z); } { Dump d(q); CHECK(w == d.p, "cloned as %s, expected %s", d.p, w.c_str()); } size_t n; const char *pl = g_payload(q, &n); CHECK(S(pl ? pl : "", n) == want.payload, "payload of the clone"); c.id = 0; assemble(q, "clone");
		if (p) g_unref(p); p = NULL; { Dump d(q); CHECK(w == d.p, "clone is %s after release of the source", d.p); } g_unref(q);
	}
	if (p) g_unref(p);
}

static void run(Src &s, const S &wire, int ver) {
	// the fixed header
	Pkt k; int h = (uint8_t) wire[0]; uint32_t rem = 0; size_t hl = 0; int want; bool short_ = false;
	{ Rd r(wire); r.i = 1; try { rem = r.vint(); hl = r.i; if (r.left() < rem) short_ = true; } catch (Bad &) { hl = 0; } }
	int t = h >> 4; bool badflags = t == 0 || (t != 3 && (h & 15) != (t == 6 || t == 8 || t == 10 ? 2 : 0));
	size_t len = hl + rem;
	if (hl && !short_) want = decode(h, wire.substr(hl, rem), ver, k); else want = -2;     // not all of it is there
	Bufs b; const char *last = NULL; std::vector<size_t> cuts = s.cuts(wire.size(), 8);
	if (cuts.size() > 8) cuts.resize(8);
	desc("ver %d %s cuts", ver, show(wire, 400).c_str()); for (auto c : cuts) desc(" %zu", c);
	g_init(); int r = feed(wire, len, cuts, ver, b.v, &last);
	if (want == 1) {
		label(("type " + std::to_string(k.type) + " v" + std::to_string(k.ver)).c_str()); nontrivial(); CHECK(r == 1, "well formed packet %s: %d", dump(k).c_str(), r);
		check_packet(wire, len, k, last, s, ver);
	}
	else if (want == 0) { label("malformed"); CHECK(r != 1, "malformed packet accepted"); label_if(r == 0, "malformed packet waits for more"); nontrivial(); }
	else if (want == -1) { label("no CONNECT yet"); CHECK(r == 0, "packet before CONNECT gives %d", r); }
	else { label("incomplete"); CHECK(r != 1, "incomplete packet accepted"); if (badflags && wire.size() >= 2) CHECK(r == -1, "bad header gives %d", r); }
	g_destroy();
}

static void parse(Src &s) {
	int ver = 3 + (int) s.u(2), type = 1 + (int) s.u(13); Pkt k = gen(s, type, ver); S b = body(k); int fl = hflags(k), given = type == 1 ? 0 : ver; S wire;
	if (s.chance(1, 30)) given = 0;
	switch (s.weighted({10, 6, 3, 3, 2, 1})) {
		case 0: break;                                                                     // as it is
		case 1: { S q = b; for (size_t n = 1 + s.u(2); n-- && !q.empty();) q[s.u(q.size() - 1)] = (char) (s.flip() ? s.u(255) : s.u(3)); b = q; label("bytes changed"); break; }
		case 2: if (!b.empty()) b.resize(s.u(b.size() - 1)); label("cut short"); break;
		case 3: if (b.size()) { size_t at = s.u(b.size()); if (s.flip()) b.insert(at, s.bytes(1 + s.len(4))); else b.erase(at, 1 + s.len(3)); } else b += s.bytes(1 + s.len(3)); label("inserted or removed"); break;
		case 4: fl = (int) s.u(15); break;
		case 5: { type = (int) s.u(15); label("other type"); break; }
	}
	wire = packet(type, fl, b);
	if (s.chance(1, 30)) { wire = S(1, wire[0]) + s.bytes(1 + s.len(6)); label("any length"); }
	switch (s.weighted({4, 3, 1})) { case 1: wire += s.chance(1, 2) ? packet(12, 0, "") + S("\0\0\0\0\0", 5) : s.bytes(1 + s.len(30)); label("followed by more"); break; case 2: wire.resize(1 + s.u(wire.size() - 1)); break; default: break; }
	run(s, wire, given);
}
VP_TARGET_NOLEAK(parse, 300000, "packets of all types and versions, changed, cut, extended or left as they are, fed in up to nine pieces and followed by other data; non-trivial: the whole packet is there");

static void init() { vp_lib_init(); }
VP_MAIN(init)
