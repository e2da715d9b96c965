// C32: what a Lua script reads from, writes to and sends as a message is what the message holds
#include "common.hpp"
#include "c32_glue.h"
extern "C" {
#include "lib/array.h"
#include "lib/type.h"
#include "lib/fixed_point.h"
#include "lib/lua/lua.h"
#include "lib/lua/lua_message.h"
#include "lib/lua/lua_cmodule.h"
#include "lib/messages/msg_msg.h"
#include "lib/messages/msg_addr.h"
#include "lib/ip/ip_defines.h"
#include <netinet/in.h>
#include <arpa/inet.h>
struct rrr_cmodule_worker;
}
#include <math.h>
#include <vector>
#include <string>
using namespace std; using vp::Src;
#undef FLD
VP_LOG_PREFIX

typedef long double ld;
enum T { STR, BLOB, H, FIXP, VAIN };
struct Pos { T t; string tag; bool sgn; vector<string> s; vector<uint64_t> v; size_t n() const { return t == STR || t == BLOB ? s.size() : t == VAIN ? 1 : v.size(); } };
struct Msg { vector<Pos> a; string topic, data, so; int64_t ts; bool ts_any; int type; string ip; int port; };

// What was sent
static int g_send_fail, g_sends; static string g_sent, g_sent_addr;
extern "C" int __wrap_rrr_cmodule_worker_send_message_and_address_to_parent(struct rrr_cmodule_worker *, const struct rrr_msg_msg *m, const struct rrr_msg_addr *a) {
	if (g_send_fail) return 1;
	g_sends++; g_sent.assign((const char *) m, MSG_TOTAL_SIZE(m)); g_sent_addr.assign((const char *) a, sizeof *a); return 0;
}

// ---- Lua literals and their meaning
enum K { NIL, BOOL, INT, FLT, STRG, TAB, FUNC };
struct Arg { K k; int64_t i; double d; string s; vector<Arg> t; };
static string lit(const string &s) { string r = "\""; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char) c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r + "\""; }
static string lit(const Arg &a) {
	char b[64];
	switch (a.k) {
		case NIL: return "nil"; case BOOL: return a.i ? "true" : "false"; case FUNC: return "print";
		case INT: if (a.i == INT64_MIN) return "math.mininteger"; snprintf(b, sizeof b, "%" PRId64, a.i); return b;
		case FLT: if (isnan(a.d)) return "(0/0)"; if (isinf(a.d)) return a.d > 0 ? "(1/0)" : "(-1/0)"; snprintf(b, sizeof b, "%a", a.d); return a.d < 0 ? "(" + string(b) + ")" : b;
		case STRG: return lit(a.s);
		case TAB: { string r = "{"; for (auto &x : a.t) r += (r.size() > 1 ? "," : "") + lit(x); return r + "}"; }
	}
	return "";
}
// Meaning as an integer: 0 value, 1 error, 2 either the value or an error
static int to_h(const Arg &a, uint64_t &v, bool &sgn) {
	switch (a.k) {
		case INT: v = (uint64_t) a.i; sgn = a.i < 0; return 0;
		case FLT: { if (!isfinite(a.d)) return 1; double t = trunc(a.d); if (t < -0x1p63 || t >= 0x1p64) return 1; sgn = t < 0; v = t < 0 ? (uint64_t) (int64_t) t : (uint64_t) t; return t >= 0x1p63 ? 2 : 0; }
		case STRG: {
			const string &s = a.s; size_t i = 0; bool neg = false; if (s.empty()) return 1; if (s[0] == '-') { neg = true; i = 1; }
			size_t d = i; unsigned __int128 x = 0; bool big = false;
			for (; i < s.size() && isdigit(s[i]); i++) { x = x * 10 + (s[i] - '0'); if (x > ((unsigned __int128) 1 << 64)) { big = true; x = 0; } }
			if (i == d) { // No digits in front
				if (i + 1 < s.size() && s[i] == '.' && s.find_first_not_of("0123456789", i + 1) == string::npos) { v = 0; sgn = false; return 2; }
				return 1;
			}
			if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) i++; }
			if (i != s.size()) { // An exponent: the number it says, or refused
				char *e; double f = strtod(s.c_str(), &e); if (*e || e == s.c_str() || s.find_first_of("xX") != string::npos) return 1;
				Arg b; b.k = FLT; b.d = f; return to_h(b, v, sgn) == 1 ? 1 : 2;
			}
			if (big || x > (neg ? (unsigned __int128) 1 << 63 : (unsigned __int128) UINT64_MAX)) return 1;
			sgn = neg && x; v = neg ? 0 - (uint64_t) x : (uint64_t) x; return 0;
		}
		default: return 1;
	}
}
// Meaning as a fixed point number, exact as long double
static int to_f(const Arg &a, ld &x) {
	bool weak = false;
	switch (a.k) {
		case INT: x = (ld) a.i; break;
		case FLT: x = a.d; break;
		case STRG: {
			const char *p = a.s.c_str(); if (a.s.empty()) return 1;
			if (a.s.compare(0, 3, "10#") == 0) p += 3;
			if (a.s.compare(0, 3, "16#") == 0) {
				p += 3; bool neg = *p == '-'; if (neg) p++; ld v = 0, m = 1; bool dot = false, dig = false;
				for (; *p; p++) { if (*p == '.') { if (dot) return 1; dot = true; continue; } if (!isxdigit(*p)) return 1; int c = isdigit(*p) ? *p - '0' : tolower(*p) - 'a' + 10; dig = true; if (dot) { m /= 16; v += c * m; } else v = v * 16 + c; }
				if (!dig) return 1; weak = !isxdigit(a.s[a.s[3] == '-' ? 4 : 3]);
				x = neg ? -v : v; break;
			}
			const char *q = p; if (*q == '-') q++; size_t dots = 0, digs = 0; for (; *q; q++) { if (*q == '.') dots++; else if (isdigit(*q)) digs++; else break; }
			if (dots > 1 || !digs) return 1; weak = !isdigit(p[*p == '-' ? 1 : 0]);
			char *e; x = strtold(p, &e); if (*e) return 1;
			if (*q) return p != a.s.c_str() || !isfinite(x) || fabsl(x) > 0x1p39L ? 1 : 2;
			break;
		}
		default: return 1;
	}
	if (!isfinite(x)) return 1;
	if (fabsl(x) > 0x1p39L) return 1;
	return weak || fabsl(x) >= 0x1p38L ? 2 : 0;
}
static bool to_s(const Arg &a, string &r) { if (a.k == STRG) r = a.s; else if (a.k == INT) r = to_string(a.i); else if (a.k == FLT) { char b[64]; snprintf(b, sizeof b, "%.14g", a.d); r = b; if (r.find_first_not_of("-0123456789") == string::npos) r += ".0"; } else return false; return true; }

static const char *tags[] = {"a", "key", "k2", "", "long tag", "t"};
static string g_tag(Src &s) { return tags[s.weighted({6, 4, 4, 2, 1, 1})]; }
static uint64_t g_u64(Src &s) {
	switch (s.u(7)) {
		case 0: return s.u(20); case 1: return 0 - (uint64_t) s.u(20); case 2: return s.u64();
		case 3: return ((uint64_t) 1 << s.u(63)) - s.u(2) + 1; case 4: return 0 - (((uint64_t) 1 << s.u(63)) - s.u(2) + 1);
		case 5: return (uint64_t) s.n(1 << 30) * s.n(1 << 30); default: return (uint64_t) INT64_MAX + s.u(2) - 1;
	}
}
static double g_dbl(Src &s) {
	double r;
	switch (s.u(6)) {
		case 0: r = (int) s.u(200) - 100; break; case 1: r = ((int) s.u(2000) - 1000) / 64.0; break;
		case 2: r = ldexp((double) s.n(0x7fffffff) + 0.5, (int) s.u(50) - 40); break;
		case 3: r = (double) g_u64(s); break; case 4: r = s.pick({1, 2}) == 1 ? 1.5e300 : 1.25e20; break;
		case 5: r = s.flip() ? INFINITY : 1.0 / (1 + s.u(9)); break; default: r = (double) (int64_t) s.u64() / 1048576.0; break;
	}
	return s.chance(1, 3) ? -r : r;
}
static string g_num(Src &s) {
	string r = s.chance(1, 3) ? "-" : ""; char b[64];
	switch (s.u(8)) {
		case 0: return to_string((int64_t) g_u64(s)); case 1: return to_string(g_u64(s));
		case 2: return r + to_string(s.u(1000)) + "." + s.chars(s.len(10), "0123456789");
		case 3: return r + to_string(g_u64(s)) + s.pick({"0", "9", ".0", ".5", "."});
		case 4: return s.pick({"abc", "", "-", ".", "3.14abc", "1.5e300", "12x", "1.2.3", "-9223372036854775809", "18446744073709551616", "-9223372036854775808", "18446744073709551615", "9007199254740993", "9007199254740993.0", "-0.5", "-0", "1.5e3", "1e5", "2.5e-5"});
		case 5: return r + s.chars(s.len(13), "0123456789") + "." + s.chars(s.len(24), "0123456789");
		case 6: return s.pick({"16#", "10#"}) + r + s.chars(s.len(9), "0123456789abc") + "." + s.chars(s.len(6), "0123456789abc");
		case 7: snprintf(b, sizeof b, "%.10f", ldexp((double) (s.u64() >> 11), -14)); return r + b;
		default: return to_string((int) s.u(10));
	}
}
static Arg g_arg(Src &s, int want, int depth) { // want: 0 any, 1 string, 2 integer, 3 number
	Arg a; a.i = 0; a.d = 0; a.k = NIL;
	int k = want == 1 ? s.weighted({0, 0, 2, 0, 20, 0, 0}) : want == 2 ? s.weighted({1, 1, 20, 5, 9, 0, 1}) : want == 3 ? s.weighted({1, 1, 5, 20, 12, 0, 1}) : s.weighted({2, 4, 8, 8, 8, 0, 1});
	if (depth == 0 && s.chance(1, 3)) k = TAB; else if (depth > 0 && s.chance(1, 25)) k = TAB;
	a.k = (K) k;
	switch (a.k) {
		case BOOL: a.i = s.flip(); break; case INT: a.i = (int64_t) g_u64(s); break; case FLT: a.d = g_dbl(s); break;
		case STRG: a.s = want >= 2 || (want == 0 && s.chance(1, 4)) ? g_num(s) : s.chance(1, 6) ? s.bytes_cheap(s.len(300)) : s.bytes(s.len(8)); break;
		case TAB: {
			size_t n = s.weighted({1, 5, 5, 3, 2}); size_t l = s.u(4); bool same = !s.chance(1, 8); int w = want; if (!w && !s.chance(1, 4)) w = 1 + s.u(2);
			for (size_t i = 0; i < n; i++) { Arg b = g_arg(s, w, depth + 1); if (w == 1 && same && b.k == STRG) b.s.resize(l + 1, 'x'); a.t.push_back(b); }
			if (n && !want && s.chance(1, 4)) { a.t[0] = Arg(); a.t[0].k = BOOL; a.t[0].i = s.flip(); a.t[0].d = 0; }
		} break;
		default: break;
	}
	return a;
}
static bool has_nil(const Arg &a) { for (auto &x : a.t) if (x.k == NIL) return true; return false; }

// The value a push would make: 0, 1 refused, 2 either (the value is then in p with those of doubt)
static int mk_str(const Arg &a, T t, Pos &p) {
	p.t = t; p.sgn = false;
	if (a.k != TAB) { string x; if (!to_s(a, x)) return 1; p.s.push_back(x); return x.empty() && t == BLOB ? 2 : 0; }
	if (a.t.empty()) return 1;
	for (auto &e : a.t) { string x; if (!to_s(e, x) || x.empty() || (p.s.size() && p.s[0].size() != x.size())) return 1; p.s.push_back(x); }
	return 0;
}
static int mk_h(const Arg &a, Pos &p) {
	p.t = H; p.sgn = false; int r = 0; bool big = false;
	vector<Arg> one(1, a); const vector<Arg> &l = a.k == TAB ? a.t : one; if (l.empty()) return 1;
	for (auto &e : l) { uint64_t v = 0; bool sg = false; int x = to_h(e, v, sg); if (x == 1) return 1; if (x) r = 2; p.v.push_back(v); if (sg) p.sgn = true; else if (v > INT64_MAX) big = true; }
	return big && p.sgn ? 1 : r;
}
static vector<ld> g_exact; // The exact values of the last mk_f
static int mk_f(const Arg &a, Pos &p) {
	p.t = FIXP; p.sgn = false; int r = 0; g_exact.clear();
	vector<Arg> one(1, a); const vector<Arg> &l = a.k == TAB ? a.t : one; if (l.empty()) return 1;
	for (auto &e : l) { ld v = 0; int x = to_f(e, v); if (x == 1) return 1; if (x) r = 2; g_exact.push_back(v); p.v.push_back(0); }
	return r;
}
static int mk_auto(const Arg &a, Pos &p) {
	if (a.k == TAB && a.t.empty()) return 1;
	const Arg &f = a.k == TAB ? a.t[0] : a; int64_t dummy;
	switch (f.k) {
		case NIL: if (a.k == TAB) return 1; p.t = VAIN; p.sgn = false; return 0;
		case BOOL: { p.t = H; p.sgn = false; vector<Arg> one(1, a); for (auto &e : a.k == TAB ? a.t : one) p.v.push_back(!(e.k == NIL || (e.k == BOOL && !e.i))); return 0; }
		case INT: return mk_h(a, p);
		case FLT: if (isfinite(f.d) && f.d == trunc(f.d) && f.d >= -0x1p63 && f.d < 0x1p63) { (void) dummy; return mk_h(a, p); }
			if (isfinite(f.d) && f.d == trunc(f.d) && f.d >= 0x1p63) return mk_h(a, p) == 1 ? 1 : 3; // Refused, or as an integer
			return mk_f(a, p);
		case STRG: return mk_str(a, STR, p);
		default: return 1;
	}
}

static void *lua; static Msg m;
static bool run(const string &expr) { // Evaluates, results in the globals r and r2; false if an error was thrown
	string c = "ok,r,r2 = pcall(function() " + expr + " end)"; gval v;
	CHECK(rrr_lua_execute_snippet((struct rrr_lua *) lua, c.data(), c.size()) == 0, "snippet refused: %s", c.c_str());
	CHECK(g_top(lua) == 0, "%d values were left on the stack by %s", g_top(lua), c.c_str());
	g_global(lua, "ok", &v); g_pop(lua, 1); return v.i;
}
static bool fixp_ok(int64_t f, ld exact) { ld g = (ld) f / 16777216; return fabsl(g) <= fabsl(exact) + 0x1p-24L && fabsl(g - exact) <= 0x1p-24L; }

// The table on the stack holds these from position w; returns the next one
static long long check_vals(const Pos &p, long long w, const char *what) {
	gval v;
	for (size_t i = 0; i < p.n(); i++, w++) {
		g_index(lua, w, &v);
		switch (p.t) {
			case STR: case BLOB: CHECK(v.kind == 4 && string(v.s, v.n) == p.s[i], "%s: element %lld should be %s and is %s", what, w, vp::show(p.s[i]).c_str(), v.kind == 4 ? vp::show(string(v.s, v.n)).c_str() : "of another type"); break;
			case VAIN: CHECK(v.kind == 0, "%s: element %lld should be nil", what, w); break;
			case H: {
				uint64_t x = p.v[i]; string t = p.sgn ? to_string((int64_t) x) : to_string(x);
				if (v.kind == 2) CHECK((uint64_t) v.i == x && (p.sgn || v.i >= 0), "%s: element %lld should be %s and is %lld", what, w, t.c_str(), v.i);
				else if (v.kind == 4) { CHECK(string(v.s, v.n) == t, "%s: element %lld should be %s and is '%s'", what, w, t.c_str(), v.s); CHECK(!p.sgn && x > INT64_MAX, "%s: element %lld is the string '%s', and would fit in an integer", what, w, t.c_str()); vp::label("read:large as string"); }
				else FAIL("%s: element %lld should be %s and is of type %d", what, w, t.c_str(), v.kind);
			} break;
			case FIXP: {
				int64_t x = (int64_t) p.v[i]; ld e = (ld) x / 16777216;
				if (v.kind == 3) CHECK((ld) v.d == e, "%s: element %lld should be %.24Lf and is %.24f", what, w, e, v.d);
				else if (v.kind == 2) CHECK((ld) v.i == e, "%s: element %lld should be %.24Lf and is %lld", what, w, e, v.i);
				else if (v.kind == 4) { char *end; string t(v.s, v.n); ld g = strtold(t.c_str(), &end); CHECK(!*end && g == e, "%s: element %lld should be %.24Lf and is '%s'", what, w, e, t.c_str()); vp::label("read:precise as string"); }
				else FAIL("%s: element %lld should be %.24Lf and is of type %d", what, w, e, v.kind);
			} break;
		}
		g_pop(lua, 1);
	}
	return w;
}
static void check_len(long long w, const char *what) { gval v; g_index(lua, w, &v); CHECK(v.kind == 0, "%s: there are more than %lld elements", what, w - 1); g_pop(lua, 1); }
static bool readable() { for (auto &p : m.a) if (p.t == BLOB && p.s[0].empty()) return false; return true; }

static void check_msg(Src &s) {
	gval v; string w;
	CHECK(run("return m:count_positions()"), "count_positions failed"); g_global(lua, "r", &v); CHECK(v.kind == 2 && v.i == (int64_t) m.a.size(), "count_positions says %lld instead of %zu", v.i, m.a.size()); g_pop(lua, 1);
	CHECK(run("return m:get_tag_names(), m:get_tag_counts()"), "get_tag_names/counts failed");
	g_global(lua, "r", &v); for (size_t i = 0; i < m.a.size(); i++) { g_index(lua, i + 1, &v); CHECK(v.kind == 4 && string(v.s, v.n) == m.a[i].tag, "tag name %zu should be '%s'", i, m.a[i].tag.c_str()); g_pop(lua, 1); } check_len(m.a.size() + 1, "get_tag_names"); g_pop(lua, 1);
	g_global(lua, "r2", &v); for (size_t i = 0; i < m.a.size(); i++) { g_index(lua, i + 1, &v); CHECK(v.kind == 2 && v.i == (int64_t) m.a[i].n(), "tag count %zu should be %zu and is %lld", i, m.a[i].n(), v.i); g_pop(lua, 1); } check_len(m.a.size() + 1, "get_tag_counts"); g_pop(lua, 1);
	for (size_t i = 0; i < m.a.size(); i++) {
		if (m.a[i].t == BLOB && m.a[i].s[0].empty()) continue;
		w = "m:get_position(" + to_string(i + 1) + ")"; CHECK(run("return " + w), "%s failed", w.c_str());
		g_global(lua, "r", &v); CHECK(v.kind == 5, "%s is no table", w.c_str()); check_len(check_vals(m.a[i], 1, w.c_str()), w.c_str()); g_pop(lua, 1);
	}
	CHECK(run("return m:get_position(" + to_string(m.a.size() + 1 + s.u(2)) + ")"), "get_position past the end failed"); g_global(lua, "r", &v); CHECK(v.kind == 0, "get_position past the end is not nil"); g_pop(lua, 1);
	CHECK(!run("return m:get_position(" + string(s.pick({"0", "-1", "-5"})) + ")"), "get_position before the first was accepted");
	string t = g_tag(s); if (s.chance(1, 5)) t = "none"; w = "m:get_tag_all(" + lit(t) + ")"; if (!readable()) return;
	CHECK(run("return " + w), "%s failed", w.c_str()); g_global(lua, "r", &v); CHECK(v.kind == 5, "%s is no table", w.c_str());
	long long n = 1; for (auto &p : m.a) if (p.tag == t) n = check_vals(p, n, w.c_str()); check_len(n, w.c_str()); g_pop(lua, 1);
}
static void check_fields() {
	gval v; g_global(lua, "m", &v);
	#define FLDV(fn, x) g_field(lua, fn, &v); CHECK(v.kind == 4 && string(v.s, v.n) == x, "field %s is not what was set", fn); g_pop(lua, 1)
	FLDV("topic", m.topic); FLDV("data", m.data); FLDV("ip_so_type", m.so);
	g_field(lua, "type", &v); CHECK(v.kind == 2 && v.i == m.type, "field type is %lld instead of %d", v.i, m.type); g_pop(lua, 1);
	g_field(lua, "timestamp", &v); CHECK(v.kind == 2 && (m.ts_any || v.i == m.ts), "field timestamp is %lld instead of %lld", v.i, (long long) m.ts); if (m.ts_any) { m.ts = v.i; m.ts_any = false; } g_pop(lua, 1);
	g_pop(lua, 1);
	CHECK(run("return m:ip_get()"), "ip_get failed");
	g_global(lua, "r", &v); CHECK(v.kind == 4 && string(v.s, v.n) == m.ip, "the address is '%s' instead of '%s'", v.kind == 4 ? v.s : "?", m.ip.c_str()); g_pop(lua, 1);
	g_global(lua, "r2", &v); CHECK(v.kind == 2 && v.i == m.port, "the port is %lld instead of %d", v.i, m.port); g_pop(lua, 1);
}

static struct rrr_type_value *mk_value(const Pos &p, bool sep) {
	struct rrr_type_value *v; string d; if (p.t == STR || p.t == BLOB) for (auto &x : p.s) d += x; else for (uint64_t x : p.v) d.append((char *) &x, 8);
	const struct rrr_type_definition *def = p.t == STR ? (sep ? &rrr_type_definition_sep : &rrr_type_definition_str) : p.t == BLOB ? &rrr_type_definition_blob : p.t == H ? &rrr_type_definition_h : p.t == FIXP ? &rrr_type_definition_fixp : &rrr_type_definition_vain;
	if (rrr_type_value_new(&v, def, p.sgn ? RRR_TYPE_FLAG_SIGNED : 0, (rrr_length) p.tag.size(), p.tag.c_str(), 0, NULL, (rrr_length) p.n(), NULL, (rrr_length) d.size()) != 0) abort();
	if (d.size()) memcpy(v->data, d.data(), d.size());
	return v;
}
static Pos g_pos(Src &s) {
	Pos p; p.tag = g_tag(s); p.sgn = false; p.t = (T) s.weighted({3, 3, 5, 5, 1}); size_t n = 1 + s.weighted({5, 2, 1}), l = 1 + s.u(7);
	if (p.t == STR && s.chance(1, 6)) { p.s.push_back(""); return p; }
	for (size_t i = 0; i < n && p.t != VAIN; i++) if (p.t <= BLOB) { p.s.push_back(s.bytes_cheap(l)); p.s.back().resize(l, 'q'); } else p.v.push_back(g_u64(s));
	if (p.t == H) p.sgn = s.flip();
	return p;
}
static void set_ip(struct sockaddr_storage &a, socklen_t &n, Src &s) {
	memset(&a, 0, sizeof a); char b[64];
	if (s.flip()) { auto *i = (struct sockaddr_in *) &a; n = sizeof *i; i->sin_family = AF_INET; i->sin_addr.s_addr = s.n(0xffffffff); i->sin_port = htons(m.port = 1 + s.n(65534)); m.ip = inet_ntop(AF_INET, &i->sin_addr, b, sizeof b); }
	else { auto *i = (struct sockaddr_in6 *) &a; n = sizeof *i; i->sin6_family = AF_INET6; string x = s.bytes_cheap(16); x.resize(16); if (s.flip()) for (int k = 2; k < 14; k++) x[k] = 0; if ((unsigned char) x[0] == 0xfe) x[0] = 0x20; memcpy(&i->sin6_addr, x.data(), 16); i->sin6_port = htons(m.port = 1 + s.n(65534)); m.ip = inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b); }
}
static string g_topic(Src &s) { return s.chance(1, 8) ? s.bytes_cheap(s.len(400)) : s.chance(1, 2) ? "a/b" : s.bytes(s.len(5)); }

static void make(Src &s) { // Makes m in Lua and in the model
	m = Msg(); m.ts_any = true; m.type = MSG_TYPE_MSG; m.port = 0; m.ts = 0;
	struct rrr_lua *l = (struct rrr_lua *) lua;
	switch (s.u(3)) {
		case 0: CHECK(run("m = RRR.Message.new()"), "could not create a message"); vp::label("new by script"); break;
		case 1: CHECK(rrr_lua_message_push_new(l) == 0, "could not create an empty message"); g_setglobal(lua, "m"); vp::label("new empty"); break;
		default: {
			m.ts = s.chance(1, 4) ? (int64_t) (s.u64() >> 1) : s.n(1 << 30); m.ts_any = false; m.type = 1 + s.u(4); m.topic = g_topic(s); bool bad = s.chance(1, 12);
			struct sockaddr_storage a; socklen_t n = 0; if (s.flip()) set_ip(a, n, s);
			int pr = s.u(2); m.so = pr == 0 ? "" : pr == 1 ? "udp" : "tcp"; uint8_t proto = pr == 0 ? RRR_IP_AUTO : pr == 1 ? RRR_IP_UDP : RRR_IP_TCP; int r;
			uint64_t ts = bad ? (uint64_t) INT64_MAX + 1 + (s.flip() ? s.n(5) : (uint64_t) INT64_MAX) : (uint64_t) m.ts;
			if (s.flip()) { m.data = s.bytes(s.len(30)); r = rrr_lua_message_push_new_data(l, ts, (rrr_u8) m.type, m.topic.data(), (rrr_length) m.topic.size(), n ? (struct sockaddr *) &a : NULL, n, proto, m.data.data(), (rrr_length) m.data.size()); vp::label("received data"); }
			else {
				struct rrr_array arr = {0}; size_t c = 1 + s.u(4); for (size_t i = 0; i < c; i++) { m.a.push_back(g_pos(s)); vp::desc("received '%s' type %d x%zu; ", m.a.back().tag.c_str(), m.a.back().t, m.a.back().n()); struct rrr_type_value *v = mk_value(m.a.back(), m.a.back().t == STR && m.a.back().s[0].size() && s.chance(1, 3)); RRR_LL_APPEND(&arr, v); }
				r = rrr_lua_message_push_new_array(l, ts, (rrr_u8) m.type, m.topic.data(), (rrr_length) m.topic.size(), n ? (struct sockaddr *) &a : NULL, n, proto, &arr); rrr_array_clear(&arr); vp::label("received array");
			}
			CHECK(!r == !bad, "message with timestamp %" PRIu64 " gave %d", ts, r);
			if (bad) { vp::label("timestamp too large"); if (g_top(lua)) g_pop(lua, g_top(lua)); g_gc(lua); m = Msg(); m.ts_any = true; m.type = MSG_TYPE_MSG; m.port = 0; CHECK(run("m = RRR.Message.new()"), "could not create a message"); }
			else g_setglobal(lua, "m");
		}
	}
	CHECK(g_top(lua) == 0, "%d values too many on the stack", g_top(lua));
}

static void op_push(Src &s) {
	int f = s.u(4); bool set = s.chance(1, 3); Pos p; p.tag = g_tag(s); Arg a; int r;
	static const char *nm[] = {"tag_str", "tag_blob", "tag_h", "tag_fixp", "tag"};
	if (f < 2) a = g_arg(s, s.chance(1, 8) ? 0 : 1, 0); else if (f == 2) a = g_arg(s, 2, 0); else if (f == 3) a = g_arg(s, 3, 0); else a = g_arg(s, 0, 0);
	// Tables with nil have no definite length
	if (has_nil(a)) { for (auto &x : a.t) if (x.k == NIL) { x.k = FUNC; } }
	r = f == 0 ? mk_str(a, STR, p) : f == 1 ? mk_str(a, BLOB, p) : f == 2 ? mk_h(a, p) : f == 3 ? mk_f(a, p) : mk_auto(a, p);
	string e = string("m:") + (set ? "set_" : "push_") + nm[f] + "(" + lit(p.tag) + "," + lit(a) + ")"; vp::desc("%s; ", e.c_str());
	bool ok = run("return " + e); gval v; string err; if (!ok) { g_global(lua, "r", &v); if (v.kind == 4) err = v.s; g_pop(lua, 1); }
	if (r == 0) CHECK(ok, "%s was refused: %s", e.c_str(), err.c_str());
	if (r == 1) CHECK(!ok, "%s was accepted", e.c_str());
	vp::label_if(!ok, "refused"); vp::label_if(ok && a.k == TAB, "table"); vp::label_if(ok && p.t == FIXP, "fixp"); vp::label_if(ok && p.t == H && p.v[0] > INT64_MAX, "large or negative");
	if (set) {
		// A refused value leaves the old ones or none
		CHECK(run("return m:count_positions()"), "count_positions failed"); g_global(lua, "r", &v); long long n = v.i; g_pop(lua, 1);
		vector<Pos> b; for (auto &x : m.a) if (x.tag != p.tag) b.push_back(x);
		if (ok || n != (long long) m.a.size()) m.a = b;
	}
	if (ok) {
		if (p.t == FIXP && f >= 3 && g_exact.size() == p.v.size()) {
			// Which of the two nearest is free: read back what was stored
			CHECK(run("return m:get_position(m:count_positions())"), "get_position failed"); g_global(lua, "r", &v);
			for (size_t i = 0; i < p.v.size(); i++) { g_index(lua, (long long) i + 1, &v); ld x = v.kind == 3 ? (ld) v.d : v.kind == 2 ? (ld) v.i : v.kind == 4 ? strtold(v.s, NULL) : NAN; g_pop(lua, 1);
				ld sc = x * 16777216; CHECK(sc == truncl(sc), "%s reads back as %.30Lf which is no fixed point number", e.c_str(), x); p.v[i] = (uint64_t) (int64_t) sc; CHECK(fixp_ok((int64_t) sc, g_exact[i]), "%s: element %zu is stored as %.24Lf instead of %.24Lf", e.c_str(), i + 1, x, g_exact[i]); }
			g_pop(lua, 1);
		}
		m.a.push_back(p);
	}
}
static void op_ip(Src &s) {
	if (s.chance(1, 5)) { CHECK(run("m:ip_clear()"), "ip_clear failed"); m.ip = ""; m.port = 0; return; }
	static const char *ips[] = {"1.2.3.4", "255.255.255.255", "::1", "2001:db8::8:1", "::ffff:1.2.3.4", "", "1.2.3", "1.2.3.4.5", "g::1", "1.2.3.256", "host", ":::"};
	size_t k = s.u(11); long long port = s.weighted({6, 1, 1}) == 0 ? (long long) s.n(65535) : s.flip() ? 65536 + (long long) s.n(70000) : -(long long) s.n(5);
	if (s.chance(1, 12)) { CHECK(!run("m:ip_set(" + string(s.pick({"nil, 5", "{}, 5", "true, 5"})) + ")"), "an address which is no string was accepted"); vp::label("bad argument"); return; }
	bool ok = run("m:ip_set(" + lit(string(ips[k])) + "," + to_string(port) + ")");
	bool exp = k == 5 || (k < 5 && port >= 1 && port <= 65535); CHECK(ok == exp, "ip_set(%s, %lld) was %s", ips[k], port, ok ? "accepted" : "refused");
	if (ok) { m.ip = ips[k]; m.port = k == 5 ? 0 : (int) port; vp::label("ip set"); }
}
static void op_field(Src &s) {
	switch (s.u(4)) {
		case 0: m.topic = g_topic(s); CHECK(run("m.topic = " + lit(m.topic)), "set topic"); break;
		case 1: m.data = s.bytes(s.len(40)); CHECK(run("m.data = " + lit(m.data)), "set data"); break;
		case 2: m.so = s.pick({"", "udp", "tcp", "UDP", "Tcp"}); CHECK(run("m.ip_so_type = " + lit(m.so)), "set ip_so_type"); break;
		case 3: m.ts = s.flip() ? (int64_t) s.n(1 << 30) * s.n(1 << 20) : (int64_t) (s.u64() >> 1); m.ts_any = false; CHECK(run("m.timestamp = " + to_string(m.ts)), "set timestamp"); break;
		default: m.type = 1 + s.u(4); CHECK(run(string("m.type = RRR.Message.MSG_TYPE_") + (const char *[]){"MSG", "TAG", "GET", "PUT", "DEL"}[m.type - 1]), "set type"); break;
	}
}
static void op_send(Src &s) {
	g_sends = 0; g_send_fail = s.chance(1, 8); string bad; bool mod = s.chance(1, 10);
	// Something which can not be sent
	if (mod) { bad = s.pick({"topic = {}", "topic = nil", "topic = string.rep('x', 65536)", "ip_so_type = 'xyz'", "ip_so_type = 'ud'", "ip_so_type = nil", "data = {}", "type = 'x'", "type = 6", "type = 0", "timestamp = 'x'", "timestamp = -1"}); if (bad == "data = {}" && m.a.size()) bad = "topic = {}"; CHECK(run("m." + bad), "set"); vp::label("send refused"); }
	bool ok = run("m:send()"); bool fail = g_send_fail; g_send_fail = 0;
	gval v; string err; if (!ok) { g_global(lua, "r", &v); if (v.kind == 4) err = v.s; g_pop(lua, 1); }
	CHECK(ok == (!mod && !fail), "send %s%s (%s)", ok ? "succeeded with " : "failed ", mod ? bad.c_str() : fail ? "a failing channel" : "", err.c_str()); CHECK(g_sends == (ok ? 1 : 0), "%d messages were sent", g_sends);
	if (mod) { string f = bad.substr(0, bad.find(' ')); CHECK(run(f == "topic" ? "m.topic = " + lit(m.topic) : f == "data" ? "m.data = " + lit(m.data) : f == "type" ? "m.type = " + to_string(m.type) : f == "timestamp" ? "m.timestamp = " + to_string(m.ts) : "m.ip_so_type = " + lit(m.so)), "restore"); }
	if (!ok) return;
	vp::label("sent"); vp::nontrivial();
	const struct rrr_msg_msg *x = (const struct rrr_msg_msg *) g_sent.data();
	CHECK(string(MSG_TOPIC_PTR(x), MSG_TOPIC_LENGTH(x)) == m.topic, "the topic sent is not what was set");
	CHECK(MSG_TYPE(x) == m.type, "the message sent has type %d instead of %d", (int) MSG_TYPE(x), m.type);
	CHECK(x->timestamp == (uint64_t) m.ts, "the message sent has timestamp %" PRIu64 " instead of %" PRId64, (uint64_t) x->timestamp, m.ts);
	if (m.a.empty()) { CHECK(MSG_CLASS(x) == MSG_CLASS_DATA, "class"); CHECK(string(MSG_DATA_PTR(x), MSG_DATA_LENGTH(x)) == m.data, "the data sent is not what was set"); }
	else {
		CHECK(MSG_CLASS(x) == MSG_CLASS_ARRAY, "class"); struct rrr_array a = {0}; uint16_t ver; CHECK(rrr_array_message_append_to_array(&ver, &a, x) == 0, "the message sent does not hold an array");
		vector<Pos> got; RRR_LL_ITERATE_BEGIN(&a, struct rrr_type_value);
			Pos p; p.tag = node->tag ? node->tag : ""; uint8_t t = node->definition->type; p.sgn = RRR_TYPE_FLAG_IS_SIGNED(node->flags) && t == RRR_TYPE_H; p.t = t == RRR_TYPE_H ? H : t == RRR_TYPE_FIXP ? FIXP : t == RRR_TYPE_VAIN ? VAIN : t == RRR_TYPE_BLOB ? BLOB : STR; size_t l = node->total_stored_length / node->element_count;
			if (p.t <= BLOB) for (size_t i = 0; i < node->element_count; i++) p.s.push_back(string(node->data + i * l, l)); else if (p.t != VAIN) for (size_t i = 0; i < node->element_count; i++) { uint64_t q; memcpy(&q, node->data + i * 8, 8); p.v.push_back(q); }
			got.push_back(p);
		RRR_LL_ITERATE_END(); rrr_array_clear(&a);
		CHECK(got.size() == m.a.size(), "%zu values were sent instead of %zu", got.size(), m.a.size());
		for (size_t i = 0; i < got.size(); i++) { auto &p = got[i], &q = m.a[i]; CHECK(p.t == q.t && p.tag == q.tag && p.s == q.s && p.v == q.v && (p.t != H || p.sgn == q.sgn || [&] { for (uint64_t z : q.v) if (z > INT64_MAX) return false; return true; }()), "value %zu sent is not what was set", i); }
		vp::label("array sent");
	}
	struct rrr_msg_addr ad; memcpy(&ad, g_sent_addr.data(), sizeof ad); size_t al = RRR_MSG_ADDR_GET_ADDR_LEN(&ad); string so; for (char c : m.so) so += (char) tolower(c);
	CHECK(ad.protocol == (so == "" ? RRR_IP_AUTO : so == "udp" ? RRR_IP_UDP : RRR_IP_TCP), "the protocol sent is %d", ad.protocol);
	char b[64] = ""; int port = 0; if (al) { struct sockaddr_storage st; memset(&st, 0, sizeof st); memcpy(&st, ad.addr, al < sizeof st ? al : sizeof st); if (st.ss_family == AF_INET) { inet_ntop(AF_INET, &((struct sockaddr_in *) &st)->sin_addr, b, sizeof b); port = ntohs(((struct sockaddr_in *) &st)->sin_port); } else { inet_ntop(AF_INET6, &((struct sockaddr_in6 *) &st)->sin6_addr, b, sizeof b); port = ntohs(((struct sockaddr_in6 *) &st)->sin6_port); } }
	CHECK(m.ip == b && m.port == port, "the message was sent with the address '%s' port %d instead of '%s' port %d", b, port, m.ip.c_str(), m.port);
}
static void op_misc(Src &s) {
	switch (s.u(5)) {
		case 0: CHECK(run("m:clear_array()"), "clear_array failed"); m.a.clear(); break;
		case 1: { string t = g_tag(s); CHECK(run("m:clear_tag(" + lit(t) + ")"), "clear_tag failed"); vector<Pos> b; for (auto &x : m.a) if (x.tag != t) b.push_back(x); m.a = b; } break;
		case 2: { string c = s.pick({"m:push_tag_str(nil, 'x')", "m:push_tag_h({}, 1)", "m.push_tag('a')", "m:push_tag('a')", "m:push_tag_fixp('a', nil)", "m:get_position('x')", "m:send(1)", "m.send()", "m.push_tag_str(5, 'a', 'b')", "m:count_positions(1, 2)"}); CHECK(!run(c), "%s was accepted", c.c_str()); vp::label("bad argument"); } break;
		case 3: { string c = s.pick({"m:push_tag('a', print)", "m:push_tag('a', {{}})", "m:push_tag('a', {print})", "m:push_tag('a', m)", "m:push_tag('a', coroutine.create(print))"}); CHECK(!run(c), "%s was accepted", c.c_str()); vp::label("bad argument"); } break;
		case 4: { string f = s.pick({"nofunc", "notf", "errf", "falsef", "numf", "truef"}); int n = s.u(2); for (int i = 0; i < n; i++) rrr_lua_pushint((struct rrr_lua *) lua, i); int r = rrr_lua_call((struct rrr_lua *) lua, f.c_str(), n); CHECK(!r == (f == "truef"), "call of %s gave %d", f.c_str(), r); CHECK(g_top(lua) == 0, "%d values were left on the stack after the call of %s", g_top(lua), f.c_str()); vp::label("call"); } break;
		default: g_gc(lua); break;
	}
}
static void c32_lua(Src &s) {
	struct rrr_lua *l; if (rrr_lua_new(&l) != 0) abort(); lua = l; static char worker;
	struct G { struct rrr_lua *l; ~G() { rrr_lua_destroy(l); } } g = {l};
	rrr_lua_set_precision_loss_warnings(l, s.flip()); rrr_lua_message_library_register(l); rrr_lua_cmodule_library_register(l, (struct rrr_cmodule_worker *) &worker);
	run("function truef() return true end function falsef() return false end function numf() return 1 end function errf() error('x') end notf = 5");
	make(s); check_fields(); check_msg(s);
	size_t n = s.len(12);
	for (size_t i = 0; i < n; i++) {
		switch (s.weighted({10, 2, 3, 3, 2, 1})) { case 0: op_push(s); break; case 1: op_ip(s); break; case 2: op_field(s); break; case 3: if (readable()) op_send(s); break; case 4: op_misc(s); break; default: make(s); break; }
		check_fields(); check_msg(s);
	}
	if (readable()) { op_send(s); check_msg(s); }
	run("m = nil"); g_gc(lua);
}
VP_TARGET_NOLEAK(c32_lua, 20000, "a message was sent and compared with what the script had set");

// Messages which arrive at the module: the right function gets them, complete
static void c32_process(Src &s) {
	struct rrr_lua *l; if (rrr_lua_new(&l) != 0) abort(); lua = l; static char worker;
	struct G { struct rrr_lua *l; ~G() { rrr_lua_destroy(l); } } g = {l};
	rrr_lua_set_precision_loss_warnings(l, s.flip()); rrr_lua_message_library_register(l); rrr_lua_cmodule_library_register(l, (struct rrr_cmodule_worker *) &worker);
	CHECK(run("calls = {} function note(f, ...) table.insert(calls, f) m, extra = ... args = select('#', ...) if fail == f then return false end if throw == f then error('x') end return true end "
	"function process(...) return note('process', ...) end function source(...) return note('source', ...) end function meth(...) return note('meth', ...) end function other(...) return note('other', ...) end"), "script");
	size_t n = 1 + s.len(5); gval v;
	for (size_t k = 0; k < n; k++) {
		m = Msg(); m.type = MSG_TYPE_MSG; bool spawn = s.chance(1, 6); string method = spawn ? "" : s.pick({"", "meth", "other", "missing"}); bool direct = method != "" && s.flip(), twice = direct && s.chance(1, 3);
		struct rrr_msg_addr ad; rrr_msg_addr_init(&ad); struct rrr_msg_msg *x = NULL; struct sockaddr_storage a; socklen_t al = 0; bool bad = false; vector<string> exp;
		if (!spawn) {
			if (s.flip()) { set_ip(a, al, s); memcpy(ad.addr, &a, al); RRR_MSG_ADDR_SET_ADDR_LEN(&ad, al); } else RRR_MSG_ADDR_SET_ADDR_LEN(&ad, 0);
			int pr = s.u(2); m.so = pr == 0 ? "" : pr == 1 ? "udp" : "tcp"; ad.protocol = pr == 0 ? RRR_IP_AUTO : pr == 1 ? RRR_IP_UDP : RRR_IP_TCP;
			m.topic = g_topic(s); m.type = 1 + s.u(4); m.ts = s.n(1 << 30); bad = s.chance(1, 15); uint64_t ts = bad ? (uint64_t) INT64_MAX + 1 + s.n(100) : (uint64_t) m.ts;
			if (s.flip()) { struct rrr_array arr = {0}; size_t c = 1 + s.u(3); for (size_t i = 0; i < c; i++) { m.a.push_back(g_pos(s)); struct rrr_type_value *t = mk_value(m.a.back(), false); RRR_LL_APPEND(&arr, t); } if (rrr_array_new_message_from_array(&x, &arr, ts, m.topic.data(), (rrr_u16) m.topic.size()) != 0) abort(); rrr_array_clear(&arr); MSG_SET_TYPE(x, m.type); vp::label("array"); }
			else { m.data = s.bytes(s.len(30)); if (rrr_msg_msg_new_with_data(&x, (rrr_u8) m.type, MSG_CLASS_DATA, ts, m.topic.data(), (rrr_u16) m.topic.size(), m.data.data(), (rrr_u32) m.data.size()) != 0) abort(); vp::label("data"); }
		} else m.ts_any = true;
		if (spawn) exp = {"source"}; else if (direct) { exp = {method}; if (twice) exp.push_back("process"); } else exp = {"process"};
		string fail = s.chance(1, 6) ? s.pick({"process", "meth", "source"}) : "", thr = s.chance(1, 6) ? s.pick({"process", "meth", "source"}) : "";
		run("fail = " + lit(fail) + " throw = " + lit(thr) + " calls = {} m = nil extra = nil");
		vector<string> seen; bool ok = true; if (bad) { ok = false; exp.clear(); }
		for (auto &f : exp) { if (f == "missing") { ok = false; break; } seen.push_back(f); if (f == fail || f == thr) { ok = false; break; } }
		vp::desc("%s%s%s%s '%s'; ", spawn ? "spawn" : "message", direct ? " direct" : "", twice ? " twice" : "", ok ? "" : " fails", method.c_str());
		unsigned long long count; int r = g_process(l, direct, twice, "process", "source", x, &ad, spawn, method.empty() ? NULL : method.c_str(), &count); if (x) rrr_free(x);
		CHECK(!r == ok, "processing gave %d", r); CHECK(count == (ok && !spawn ? 1u : 0u), "%llu messages counted", count);
		CHECK(g_top(lua) == 0, "%d values were left on the stack", g_top(lua));
		g_global(lua, "calls", &v); CHECK(g_rawlen(lua) == (long long) seen.size(), "%lld functions were called instead of %zu", g_rawlen(lua), seen.size());
		for (size_t i = 0; i < seen.size(); i++) { g_index(lua, (long long) i + 1, &v); CHECK(string(v.s, v.n) == seen[i], "function %s was called instead of %s", v.s, seen[i].c_str()); g_pop(lua, 1); } g_pop(lua, 1);
		if (seen.empty()) continue;
		vp::nontrivial(); vp::label_if(direct, "direct"); vp::label_if(!ok, "failed"); vp::label_if(spawn, "spawn");
		g_global(lua, "args", &v); long long na = v.i; g_pop(lua, 1); g_global(lua, "extra", &v);
		if (seen.back() == "process" && !method.empty()) { CHECK(na == 2 && v.kind == 4 && string(v.s, v.n) == method, "the process function was not told the method '%s'", method.c_str()); vp::label("method name given"); } else CHECK(na == 1, "%lld arguments were given", na);
		g_pop(lua, 1); check_fields(); check_msg(s);
	}
	run("m = nil"); g_gc(lua);
}
VP_TARGET_NOLEAK(c32_process, 8000, "a function of the script was called with a message");
VP_MAIN(vp_lib_init)
