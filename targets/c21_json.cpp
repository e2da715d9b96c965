// C21: JSON to arrays and back
#include "common.hpp"
#include <cmath>
#include <map>
extern "C" {
#include "lib/json/json.h"
#include "lib/array.h"
#include "lib/map.h"
#include "lib/fixed_point.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

// Values of JSON
struct J { char t = 'n'; S s; bool b = false; std::vector<J> a; std::vector<std::pair<S, J>> o; }; // n, b, i (digits), d (digits), s, a, o
static S utf8(unsigned c) { S r; if (c < 0x80) r += (char) c; else if (c < 0x800) { r += (char) (0xc0 | c >> 6); r += (char) (0x80 | (c & 63)); } else if (c < 0x10000) { r += (char) (0xe0 | c >> 12); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); } else { r += (char) (0xf0 | c >> 18); r += (char) (0x80 | (c >> 12 & 63)); r += (char) (0x80 | (c >> 6 & 63)); r += (char) (0x80 | (c & 63)); } return r; }
struct P { const S &s; size_t p = 0; bool ok = true; explicit P(const S &s_) : s(s_) {}
	void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
	bool eat(char c) { ws(); if (p < s.size() && s[p] == c) { p++; return true; } return false; }
	unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; i++) { char c = p < s.size() ? s[p++] : 0; if (!isxdigit((unsigned char) c)) { ok = false; return 0; } v = v * 16 + (unsigned) (isdigit((unsigned char) c) ? c - '0' : (c | 32) - 'a' + 10); } return v; }
	S str() { S r; if (!eat('"')) { ok = false; return r; } while (ok) { if (p >= s.size()) { ok = false; break; } unsigned char c = (unsigned char) s[p++]; if (c == '"') break; if (c < 32) { ok = false; break; } if (c != '\\') { r += (char) c; continue; } c = p < s.size() ? (unsigned char) s[p++] : 0;
		switch (c) { case '"': case '\\': case '/': r += (char) c; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break; case 'u': { unsigned v = hex4(); if (v >= 0xd800 && v < 0xdc00) { if (p + 1 < s.size() && s[p] == '\\' && s[p + 1] == 'u') { p += 2; unsigned w = hex4(); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } else ok = false; } r += utf8(v); break; } default: ok = false; } }
		return r; }
	J val() { J j; ws(); if (p >= s.size()) { ok = false; return j; }
		if (s[p] == '{') { p++; j.t = 'o'; if (eat('}')) return j; do { ws(); S k = str(); if (!eat(':')) ok = false; j.o.push_back({k, val()}); } while (ok && eat(',')); if (!eat('}')) ok = false; }
		else if (s[p] == '[') { p++; j.t = 'a'; if (eat(']')) return j; do j.a.push_back(val()); while (ok && eat(',')); if (!eat(']')) ok = false; }
		else if (s[p] == '"') { j.t = 's'; j.s = str(); }
		else if (s.compare(p, 4, "null") == 0) p += 4; else if (s.compare(p, 4, "true") == 0) { p += 4; j.t = 'b'; j.b = true; } else if (s.compare(p, 5, "false") == 0) { p += 5; j.t = 'b'; }
		else { size_t q = p; if (s[q] == '-') q++; size_t d = q; while (q < s.size() && isdigit((unsigned char) s[q])) q++; if (q == d) { ok = false; return j; } j.t = 'i'; if (q < s.size() && s[q] == '.') { j.t = 'd'; q++; size_t f = q; while (q < s.size() && isdigit((unsigned char) s[q])) q++; if (f == q) ok = false; } if (q < s.size() && (s[q] | 32) == 'e') { j.t = 'd'; q++; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++; while (q < s.size() && isdigit((unsigned char) s[q])) q++; } j.s = s.substr(p, q - p); p = q; }
		return j; }
};
static J parse(const S &s) { P p(s); J j = p.val(); p.ws(); CHECK(p.ok && p.p == s.size(), "not well formed: %s", show(s).c_str()); return j; }

static S gen_str(Src &s) { S r; size_t n = s.len(8); for (size_t i = 0; i < n; i++) switch (s.u(5)) { case 0: r += (char) (32 + s.u(94)); break; case 1: r += (char) s.u(31); break; case 2: r += s.pick({"\"", "\\", "/", "\b", "\x7f", "{", "'", "</"}); break; case 3: { unsigned c = (unsigned) s.range(0x80, 0xffff); if (c >= 0xd800 && c < 0xe000) c = 0xe9; r += utf8(c); break; } case 4: r += utf8((unsigned) s.range(0x10000, 0x10ffff)); break; default: r += s.word(1, 5); } return r; }
static S gen_key(Src &s) { S r = s.chance(4, 5) ? s.word(0, 3, "abc_ ") : gen_str(s); for (auto &c : r) if (!c) c = 'z'; return r; }
static S ws(Src &s) { return s.chance(1, 6) ? s.chars(1 + s.u(2), " \t\r\n") : S(); }
static S quote(Src &s, const S &v) {
	S r = "\""; char b[32];
	for (size_t i = 0; i < v.size(); ) {
		unsigned char c = (unsigned char) v[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; unsigned u = n == 1 ? c : n == 2 ? (c & 31u) << 6 | (v[i + 1] & 63u) : n == 3 ? (c & 15u) << 12 | (v[i + 1] & 63u) << 6 | (v[i + 2] & 63u) : (c & 7u) << 18 | (v[i + 1] & 63u) << 12 | (v[i + 2] & 63u) << 6 | (v[i + 3] & 63u);
		bool esc = c < 32 || c == '"' || c == '\\' || s.chance(1, 4); const char *sh = NULL; switch (c) { case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break; case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break; case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break; }
		if (!esc) r += v.substr(i, n); else if (sh && s.chance(2, 3)) r += sh; else if (u >= 0x10000 && (u & 0xf800) == 0xd800) r += v.substr(i, n); /* a defect of the library */ else if (u >= 0x10000) { snprintf(b, sizeof b, s.flip() ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 1023)); r += b; } else { snprintf(b, sizeof b, s.flip() ? "\\u%04x" : "\\u%04X", u); r += b; }
		i += n;
	}
	return r + "\"";
}
// One expected value of an array
struct V { int type; bool sgn; S data, tag; };
typedef std::vector<V> Arr;
static S i64s(uint64_t v) { return S((char *) &v, 8); }
static bool to_fixp(const S &digits, int64_t &r) {
	double d = strtod(digits.c_str(), NULL); if (!std::isfinite(d)) return false;
	long double m = truncl(fabsl((long double) d)); if (m >= 549755813888.0L) return false; // 2^39
	long double x = truncl(fabsl((long double) d) * 16777216.0L); uint64_t u = (uint64_t) x; r = d < 0 ? -(int64_t) u : (int64_t) u; return true;
}
static S gen_double(Src &s) {
	char b[64]; switch (s.u(4)) {
		case 0: snprintf(b, sizeof b, "%.17g", (double) s.i64() / 16777216.0); break; case 1: snprintf(b, sizeof b, "%lld.%llu", (long long) s.u(1000) - 500, (unsigned long long) s.u(99999999)); break;
		case 2: snprintf(b, sizeof b, "%llde%d", (long long) s.u(100) - 50, (int) s.u(30) - 15); break; case 3: snprintf(b, sizeof b, "%s.%d", s.pick({"549755813887", "549755813888", "-549755813887", "-549755813888", "-0", "0"}), (int) s.u(9)); break;
		default: snprintf(b, sizeof b, "%.*f", 1 + (int) s.u(14), (double) (int64_t) s.u(1 << 30) / 16777216.0); break; }
	S r = b; if (r.find_first_of(".e") == S::npos) r += ".0"; return r;
}
// Generates text, and what should come of it
struct Gen {
	Src &s; int max; S out; std::vector<Arr> want; int ret = 0; bool stop = false; int depth = 0;
	Gen(Src &s_, int m) : s(s_), max(m) {}
	void raw_scalar() { switch (s.u(4)) { case 0: out += "1"; break; case 1: out += quote(s, gen_str(s)); break; case 2: out += "null"; break; case 3: out += "true"; break; default: out += gen_double(s); } }
	// level: level at which it is looked at; dead: not looked at
	void object(int level, bool dead) {
		dead = dead || level > max; Arr a; std::vector<std::pair<S, std::vector<V>>> kv; out += "{" + ws(s); size_t n = s.u(depth > 5 ? 1 : 4); std::vector<S> used;
		for (size_t i = 0; i < n; i++) {
			S k = gen_key(s); bool dup = false; for (auto &u : used) if (u == k) dup = true; if (dup) k += "d" + std::to_string(i) + "q"; used.push_back(k);
			if (i) out += "," + ws(s); out += quote(s, k) + ws(s) + ":" + ws(s); V v{0, false, "", k}; bool have = true;
			switch (s.weighted({4, 4, 3, 2, 2, 3, 3})) {
				case 0: v.type = RRR_TYPE_STR; v.data = gen_str(s); out += quote(s, v.data); break;
				case 1: { uint64_t u = s.u64(); int64_t x = s.i64(); char b[32]; v.type = RRR_TYPE_H; if (s.flip()) { v.sgn = u <= INT64_MAX; v.data = i64s(u); snprintf(b, sizeof b, "%llu", (unsigned long long) u); } else { v.sgn = true; v.data = i64s((uint64_t) x); snprintf(b, sizeof b, "%lld", (long long) x); } out += b; break; }
				case 2: { S d = gen_double(s); int64_t f = 0; out += d; v.type = RRR_TYPE_FIXP; bool ok = to_fixp(d, f); if (!dead && !stop && !ok) { ret = RRR_JSON_PARSE_ERROR; stop = true; } v.data = i64s((uint64_t) f); break; }
				case 3: v.type = RRR_TYPE_H; v.data = i64s(s.u(1)); out += v.data[0] ? "true" : "false"; break;
				case 4: v.type = RRR_TYPE_VAIN; out += "null"; break;
				case 5: have = false; depth++; object(level + 1, dead); depth--; break;
				default: have = false; depth++; array(level + 1, dead); depth--; break;
			}
			if (have) a.push_back(v); out += ws(s);
		}
		out += "}"; if (!dead && !stop) want.push_back(a);
	}
	void array(int level, bool dead) {
		dead = dead || level > max; out += "[" + ws(s); size_t n = s.u(depth > 5 ? 1 : 3);
		for (size_t i = 0; i < n; i++) { if (i) out += "," + ws(s); depth++; if (s.chance(1, 25)) { raw_scalar(); if (!dead && level + 1 <= max && !stop) { stop = true; ret = RRR_JSON_PARSE_ERROR; } } else if (s.chance(2, 3)) object(level + 1, dead); else array(level + 1, dead); depth--; out += ws(s); }
		out += "]";
	}
};
static Arr take(const struct rrr_array *a) { Arr r; for (struct rrr_type_value *v = a->ptr_first; v; v = v->ptr_next) { CHECK(v->element_count == 1, "elements"); r.push_back({v->definition->type, RRR_TYPE_FLAG_IS_SIGNED(v->flags) != 0, S(v->data ? v->data : "", v->total_stored_length), S(v->tag ? v->tag : "", v->tag_length)}); } return r; }
static S show_a(const Arr &a) { S r; for (auto &v : a) r += " [" + show(v.tag, 40) + " type " + std::to_string(v.type) + (v.sgn ? "s " : " ") + show(v.data, 60) + "]"; return r; }
static void same(const Arr &g, const Arr &w, const S &in) { bool ok = g.size() == w.size(); for (size_t i = 0; ok && i < g.size(); i++) ok = g[i].type == w[i].type && g[i].data == w[i].data && g[i].tag == w[i].tag && (g[i].type != RRR_TYPE_H || g[i].sgn == w[i].sgn); CHECK(ok, "from %s array%s, expected%s", show(in, 300).c_str(), show_a(g).c_str(), show_a(w).c_str()); }
struct Cb { std::vector<Arr> got; size_t fail_at = SIZE_MAX; int fail_ret = 0; };
static int cb(const struct rrr_array *a, void *p) { Cb *c = (Cb *) p; c->got.push_back(take(a)); return c->got.size() - 1 == c->fail_at ? c->fail_ret : 0; }
static int read(const S &t, int max, Cb &c) { std::unique_ptr<char[]> b(new char[t.size() + !t.size()]); memcpy(b.get(), t.data(), t.size()); return rrr_json_to_arrays(b.get(), (rrr_length) t.size(), max, cb, &c); }

static void to_arrays(Src &s) {
	Gen g(s, s.chance(1, 2) ? 4 : (int) s.u(6)); g.out = ws(s); if (s.chance(2, 3)) g.object(0, false); else g.array(0, false); S tail = ws(s); desc("%d levels: %s", g.max, show(g.out, 300).c_str());
	Cb c; if (!g.want.empty() && s.chance(1, 8)) { c.fail_at = s.u(g.want.size() - 1); c.fail_ret = s.pick({1, 2}); g.want.resize(c.fail_at + 1); g.ret = c.fail_ret; label("callback fails"); }
	int r = read(g.out + tail, g.max, c); CHECK(r == g.ret, "return %d for %s, expected %d", r, show(g.out, 300).c_str(), g.ret);
	CHECK(c.got.size() == g.want.size(), "%zu arrays from %s, expected %zu", c.got.size(), show(g.out, 300).c_str(), g.want.size());
	size_t vals = 0; for (size_t i = 0; i < c.got.size(); i++) { same(c.got[i], g.want[i], g.out); vals += c.got[i].size(); }
	if (vals > 1) nontrivial(); label_if(g.want.size() > 1, "several objects"); label_if(g.ret != 0, "refused");
	// each proper part of the text is incomplete
	if (g.out.size() > 1) { Cb d; size_t n = s.range(1, g.out.size() - 1); r = read(g.out.substr(0, n), g.max, d); S part = g.out.substr(0, n); CHECK(r == RRR_JSON_PARSE_INCOMPLETE, "%s returns %d, not incomplete", show(part, 300).c_str(), r); CHECK(d.got.empty(), "arrays from incomplete text"); }
}
static void from_array(Src &s) {
	struct rrr_array a = {}; struct rrr_map tags = {}; size_t n = s.u(6); std::vector<std::pair<S, std::vector<J>>> m; std::vector<bool> multi; bool back = true; std::vector<S> used; Arr fw;
	for (size_t i = 0; i < n; i++) {
		S k = gen_key(s); if (k.size() > 200) k.resize(200); bool dup = false; for (auto &u : used) if (u == k) dup = true; if (dup && !s.chance(1, 4)) k += "d" + std::to_string(i) + "q"; else if (dup) back = false; used.push_back(k); const char *t = k.empty() && s.flip() ? NULL : k.c_str();
		std::vector<J> js; bool mu = false; J j; V fv{0, false, "", k};
		switch (s.u(7)) {
			case 0: { uint64_t x = s.u64(); j.t = 'i'; j.s = std::to_string((unsigned long long) x); CHECK(rrr_array_push_value_u64_with_tag(&a, t, x) == 0, "push"); fv.type = RRR_TYPE_H; fv.sgn = x <= INT64_MAX; fv.data = i64s(x); break; }
			case 1: { int64_t x = s.i64(); j.t = 'i'; j.s = std::to_string((long long) x); CHECK(rrr_array_push_value_i64_with_tag(&a, t, x) == 0, "push"); fv.type = RRR_TYPE_H; fv.sgn = true; fv.data = i64s((uint64_t) x); break; }
			case 2: { int64_t x = s.flip() ? s.i64() >> 12 : (int64_t) s.u(1000) - 500; j.t = 'd'; char b[64]; snprintf(b, sizeof b, "%.17g", (double) x / 16777216.0); j.s = b; CHECK(rrr_array_push_value_fixp_with_tag(&a, t, x) == 0, "push"); fv.type = RRR_TYPE_FIXP; fv.data = i64s((uint64_t) x); if ((int64_t) ((double) x) != x) { fv.data = i64s((uint64_t) (int64_t) (double) x); } break; }
			case 3: { S x = gen_str(s); j.t = 's'; j.s = x; CHECK(rrr_array_push_value_str_with_tag_with_size(&a, t, x.data(), (rrr_length) x.size()) == 0, "push"); fv.type = RRR_TYPE_STR; fv.data = x; break; }
			case 4: { S x = gen_str(s) + "x"; j.t = 's'; j.s = x; CHECK(rrr_array_push_value_blob_with_tag_with_size(&a, t, x.data(), (rrr_length) x.size()) == 0, "push"); fv.type = RRR_TYPE_STR; fv.data = x; break; }
			case 5: j.t = 'n'; CHECK(rrr_array_push_value_vain_with_tag(&a, t) == 0, "push"); fv.type = RRR_TYPE_VAIN; break;
			default: { size_t e = 2 + s.u(4); bool num = s.flip(), sg = s.flip(); mu = true; back = false; size_t l = 1 + s.u(3); struct rrr_type_value *v = NULL; S d;
				for (size_t q = 0; q < e; q++) { J x; if (num) { uint64_t u = s.u64(); d += i64s(u); x.t = 'i'; x.s = sg ? std::to_string((long long) u) : std::to_string((unsigned long long) u); } else { x.t = 's'; x.s = s.chars(l, "ab\"\\\n1"); d += x.s; } js.push_back(x); }
				if (num) { CHECK(rrr_type_new_h(&v, (rrr_length) k.size(), k.c_str(), (rrr_length) e) == 0, "new"); v->flags = sg ? RRR_TYPE_FLAG_SIGNED : 0; } else CHECK(rrr_type_value_new(&v, &rrr_type_definition_blob, 0, (rrr_length) k.size(), k.c_str(), (rrr_length) d.size(), NULL, (rrr_length) e, NULL, (rrr_length) d.size()) == 0, "new");
				CHECK(v->total_stored_length == d.size(), "size"); memcpy(v->data, d.data(), d.size()); RRR_LL_APPEND(&a, v); break; } }
		if (!mu) js.push_back(j); m.push_back({k, js}); multi.push_back(mu); fw.push_back(fv);
	}
	bool sel = s.chance(1, 3); std::vector<S> st; if (sel) { for (auto &x : m) if (!x.first.empty() && s.flip()) { bool d = false; for (auto &y : st) if (y == x.first) d = true; if (!d) st.push_back(x.first); } if (s.flip()) st.push_back("none"); for (auto &x : st) CHECK(rrr_map_item_add_new(&tags, x.c_str(), NULL) == 0, "map"); back = false; }
	desc("%zu values%s", n, sel ? ", selected" : ""); if (n > 1) nontrivial();
	// the last value of each name is what counts, at the place of the first
	std::vector<std::pair<S, J>> want; int found = 0;
	auto put = [&](size_t i) { J j; if (multi[i]) { j.t = 'a'; j.a = m[i].second; } else j = m[i].second[0]; found++; for (auto &w : want) if (w.first == m[i].first) { w.second = j; return; } want.push_back({m[i].first, j}); };
	for (size_t i = 0; i < n; i++) { bool in = !sel; for (auto &x : st) if (x == m[i].first) in = true; if (in) put(i); }
	char *out = NULL; int ft = -1; CHECK(rrr_json_from_array(&out, &ft, &a, sel ? &tags : NULL) == 0, "conversion failed"); S text = out; rrr_free(out);
	CHECK(ft == found, "%d values found, expected %d", ft, found);
	J j = parse(text); CHECK(j.t == 'o' && j.o.size() == want.size(), "%s has not %zu values", show(text, 300).c_str(), want.size());
	auto eq = [&](const J &g, const J &w) { if (w.t == 'd') return (g.t == 'd' || g.t == 'i') && strtod(g.s.c_str(), NULL) == strtod(w.s.c_str(), NULL); return g.t == w.t && g.s == w.s; };
	for (size_t i = 0; i < want.size(); i++) { auto &g = j.o[i]; auto &w = want[i]; CHECK(g.first == w.first, "name %s, expected %s", show(g.first).c_str(), show(w.first).c_str());
		if (w.second.t == 'a') { CHECK(g.second.t == 'a' && g.second.a.size() == w.second.a.size(), "%s: elements", show(text, 300).c_str()); for (size_t k = 0; k < w.second.a.size(); k++) CHECK(eq(g.second.a[k], w.second.a[k]), "%s: element %zu is not %s", show(text, 300).c_str(), k, show(w.second.a[k].s).c_str()); label("elements"); }
		else CHECK(eq(g.second, w.second), "%s: value %zu is not %c %s", show(text, 300).c_str(), i, w.second.t, show(w.second.s).c_str()); }
	if (back) { Cb c; CHECK(read(text, 4, c) == 0, "%s is not accepted", show(text, 300).c_str()); CHECK(c.got.size() == 1, "arrays"); same(c.got[0], fw, text); label("and back"); }
	rrr_array_clear(&a); rrr_map_clear(&tags);
}
// Records of the log
static void objects(Src &s) {
	struct rrr_map map = {}; std::vector<std::pair<S, S>> m; size_t n = s.u(5);
	auto nz = [&](S v) { for (auto &c : v) if (!c) c = 'z'; return v; };
	auto put = [&](const S &k, const S &v) { for (auto &x : m) if (x.first == k) { x.second = v; return; } m.push_back({k, v}); };
	for (size_t i = 0; i < n; i++) { S k = gen_key(s), v = nz(gen_str(s)); CHECK(rrr_map_item_add_new(&map, k.c_str(), v.c_str()) == 0, "map"); put(k, v); }
	desc("%zu items", n); if (n > 1) nontrivial();
	char *t = NULL; rrr_json_from_map_nolog(&t, &map); S text = t; rrr_free(t); rrr_map_clear(&map);
	auto cmp = [&](const S &tx) { J j = parse(tx); CHECK(j.t == 'o' && j.o.size() == m.size(), "%s has not %zu items", show(tx, 300).c_str(), m.size()); for (size_t i = 0; i < m.size(); i++) CHECK(j.o[i].first == m[i].first && j.o[i].second.t == 's' && j.o[i].second.s == m[i].second, "%s: item %s is not %s", show(tx, 300).c_str(), show(m[i].first).c_str(), show(m[i].second).c_str()); };
	cmp(text); struct rrr_json_object *o = NULL; { std::unique_ptr<char[]> b(new char[text.size()]); memcpy(b.get(), text.data(), text.size()); CHECK(rrr_json_object_parse_nolog(&o, b.get(), (int) text.size()) == 0, "not parsed"); }
	for (size_t q = s.u(4); q; q--) { S k = !m.empty() && s.flip() ? s.pick(m).first : gen_key(s), v = nz(gen_str(s)); switch (s.u(2)) { case 0: rrr_json_object_set_nolog(o, k.c_str(), v.c_str()); break; case 1: v += s.pick({"\n", "\r\n", "\n\r\n", "", "x\n"}); rrr_json_object_set_nolog_trim(o, k.c_str(), v.c_str()); while (!v.empty() && (v.back() == '\n' || v.back() == '\r')) v.pop_back(); break; default: rrr_json_object_set_f_nolog(o, k.c_str(), "%s-%i", v.c_str(), 5); v += "-5"; } put(k, v); }
	rrr_json_from_object_nolog(&t, o); text = t; rrr_free(t); cmp(text); rrr_json_object_destroy(o);
}
// Text which is damaged or not JSON: harmless
static void damaged(Src &s) {
	Gen g(s, 4); if (s.chance(2, 3)) g.object(0, false); else g.array(0, false); S t = g.out; size_t k = s.u(4);
	for (size_t i = 0; i < k && !t.empty(); i++) { size_t p = s.u(t.size() - 1); switch (s.u(4)) { case 0: t[p] = (char) s.u(255); break; case 1: t.erase(p, 1 + s.u(3)); break; case 2: t.insert(p, s.pick({"{", "}", "[", "]", "\"", ",", ":", "null", "NaN", "Infinity", "-", "1e999", "\\u0000", "\\ud800", "//x\n", "'", "nan"})); break; case 3: t[p] = s.chars(1, "{}[]\",:\\0")[0]; break; case 4: t.insert(p, S(20 + s.u(30), s.flip() ? '[' : '{')); break; } }
	desc("%s", show(t, 300).c_str()); Cb c; int r = read(t, (int) s.u(5), c); CHECK(r == 0 || r == RRR_JSON_PARSE_ERROR || r == RRR_JSON_PARSE_INCOMPLETE, "return %d", r); label(r == 0 ? "accepted" : r == RRR_JSON_PARSE_ERROR ? "refused" : "incomplete"); if (k) nontrivial();
	struct rrr_json_object *o = NULL; std::unique_ptr<char[]> b(new char[t.size() + !t.size()]); memcpy(b.get(), t.data(), t.size()); if (rrr_json_object_parse_nolog(&o, b.get(), (int) t.size()) == 0) rrr_json_object_destroy(o); else CHECK(!o, "object after error");
}
VP_TARGET(to_arrays, 40000, "more than one value was read");
VP_TARGET(from_array, 40000, "more than one value");
VP_TARGET(objects, 20000, "more than one item");
VP_TARGET(damaged, 20000, "text was damaged");
VP_MAIN(vp_lib_init)
