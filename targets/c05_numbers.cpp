// C05: fixed point numbers and conversions between types
#include "common.hpp"
extern "C" {
#include "lib/array.h"
#include "lib/type.h"
#include "lib/type_conversion.h"
#include "lib/fixed_point.h"
#include "lib/map.h"
}
#include <math.h>
VP_LOG_PREFIX
using namespace vp;

static rrr_fixp gen_fixp(Src &s) { switch (s.u(3)) { case 0: return s.i64(); case 1: return (rrr_fixp) s.n(1000) * 8388608 - 100000000; case 2: return (rrr_fixp) s.u64(); default: return (rrr_fixp) s.n(1u << 26) * (s.flip() ? 1 : -1); } }
static long double exact(rrr_fixp f) { return ldexpl((long double) f, -24); }

static void fixp(Src &s) {
	rrr_fixp f = gen_fixp(s), g = 0; desc("%lld", (long long) f); nontrivial();
	long double d = 0; CHECK(rrr_fixp_to_ldouble(&d, f) == 0 && d == exact(f), "as long double %.20Lf, want %.20Lf", d, exact(f));
	int e = rrr_fixp_ldouble_to_fixp(&g, d); CHECK(f == INT64_MIN || (e == 0 && g == f), "through long double: %lld", (long long) g);
	char buf[128]; memset(buf, 'x', sizeof(buf)); rrr_length room = (rrr_length) s.u(64); int r = rrr_fixp_to_str_16(buf, room, f);
	for (size_t i = room; i < sizeof(buf); i++) CHECK(buf[i] == 'x', "hexadecimal text written outside the buffer");
	if (room > 40) CHECK(r == 0, "hexadecimal text does not fit in %u", room);
	if (!r) {
		size_t n = strlen(buf); CHECK(n < room, "text of %zu characters in %u bytes", n, room); std::string t(buf, n); if (s.flip()) t += s.pick({" ", "g", ",", "\n", "/"}); std::vector<char> v(t.begin(), t.end()); const char *end = NULL;
		CHECK(rrr_fixp_str_to_fixp(&g, v.data(), (rrr_length) v.size(), &end) == 0 && g == f && end == v.data() + n, "hexadecimal text %s is read as %lld", buf, (long long) g); label("hexadecimal");
	}
	char *nb = NULL; CHECK(rrr_fixp_to_new_str_double(&nb, f) == 0 && nb, "decimal text");
	char *q = NULL; CHECK(fabsl(strtold(nb, &q) - exact(f)) < 1e-9L && *q == 0, "decimal text %s, want %.12Lf", nb, exact(f));
	room = (rrr_length) (1 + s.u(40)); memset(buf, 'x', sizeof(buf)); r = rrr_fixp_to_str_double(buf, room, f);
	for (size_t i = room; i < sizeof(buf); i++) CHECK(buf[i] == 'x', "decimal text written outside the buffer");
	CHECK(!r == (strlen(nb) < room), "return %d with room for %u bytes of %s", r, room, nb); if (!r) CHECK(!strcmp(buf, nb), "two decimal texts %s and %s", buf, nb);
	const char *end = NULL; e = rrr_fixp_str_to_fixp(&g, nb, (rrr_length) strlen(nb), &end);
	if (llabs(f >> 1) < (1ll << 62) - 2) CHECK(e == 0 && *end == 0 && llabs(g - f) <= 1, "decimal text %s is read as %lld (%d)", nb, (long long) g, e);
	rrr_free(nb);
	// any floating point number: the nearest not further from zero or an error
	long double a = s.flip() ? exact(gen_fixp(s)) + (long double) s.n(100) / 1e9L : s.chance(1, 8) ? (long double) (s.u(2) ? INFINITY : NAN) * (s.flip() ? 1 : -1) : ldexpl((long double) s.i64(), (int) s.u(80) - 60);
	e = rrr_fixp_from_ldouble(&g, a);
	bool fits = isfinite(a) && fabsl(a) < 549755813888.0L;
	CHECK(!e == fits, "%.20Lg: return %d", a, e);
	if (fits) CHECK(g == (rrr_fixp) truncl(a * 16777216.0L), "%.20Lg becomes %lld, want %lld", a, (long long) g, (long long) truncl(a * 16777216.0L));
}
VP_TARGET_NOLEAK(fixp, 60000, "fixed point numbers of all magnitudes through long double, hexadecimal and decimal text, and floating point numbers including infinite ones; every case counts");

// Text to fixed point
static void fixp_text(Src &s) {
	std::string t = s.pick({"", "", "10#", "16#"}); t += s.pick({"", "", "-", "+"}); bool hex = t.substr(0, 3) == "16#";
	t += s.chars(s.len(s.chance(1, 10) ? 60 : 12), hex ? "0123456789abcdefABCDEF" : "0123456789"); if (s.flip()) t += "." + s.chars(s.len(s.chance(1, 10) ? 60 : 10), hex ? "0123456789abcdefABCDEF" : "0123456789");
	if (s.chance(1, 3)) t += s.pick({" ", ".", "x", "-", "\n", "#", "e5"});
	if (s.chance(1, 6)) t = s.chars(s.len(8), "01.-+#16a ");
	desc("%s", show(t).c_str());
	std::vector<char> v(t.begin(), t.end()); const char *end = NULL; rrr_fixp g = 0; int e = rrr_fixp_str_to_fixp(&g, v.data(), (rrr_length) v.size(), &end);
	size_t i = 0, n = t.size(); int base = 10; if (n >= 3 && (t.substr(0, 3) == "16#" || t.substr(0, 3) == "10#")) { base = t[1] == '6' ? 16 : 10; i = 3; }
	bool neg = i < n && t[i] == '-', has = false; if (i < n && (t[i] == '-' || t[i] == '+')) i++;
	size_t b = i; long double x = 0, y = 0, f = 1; bool bad = i >= n;
	for (; i < n && !bad; i++) {
		if (t[i] == '.') { if (i == b || has) bad = true; has = true; continue; }
		int c = isdigit(t[i]) ? t[i] - '0' : base == 16 && isxdigit(t[i]) ? tolower(t[i]) - 'a' + 10 : -1;
		if (c < 0) break;
		if (has) { f /= base; y += c * f; } else x = x * base + c;
	}
	if (i == b || x > 549755813888.0L || (x == 549755813888.0L && (!neg || y * 16777216.0L >= 1))) bad = true;
	CHECK(!!e == bad, "return %d, want %s", e, bad ? "an error" : "success");
	if (bad) { label("rejected"); return; }
	nontrivial();
	CHECK(end == v.data() + i, "read %td characters, want %zu", end - v.data(), i);
	CHECK(fabsl((long double) ((neg ? -g : g) - (int64_t) ((uint64_t) x << 24)) - y * 16777216.0L) <= 1.0L, "value %.12Lf, want %.12Lf", exact(g), neg ? -x - y : x + y);
}
VP_TARGET_NOLEAK(fixp_text, 60000, "numbers in text, decimal and hexadecimal, with and without sign, fraction and following text, and text which is not a number; non-trivial: a number");

// Conversion lists
struct V { const struct rrr_type_definition *d; uint8_t flags; std::string tag; std::vector<std::string> el; std::string data() const { std::string r; for (auto &e : el) r += e; return r; } };
static std::string u64s(uint64_t x) { return std::string((char *) &x, 8); }
static uint64_t num(const std::string &e) { uint64_t x; memcpy(&x, e.data(), 8); return x; }
static bool is(const V &v, std::initializer_list<const struct rrr_type_definition *> l) { for (auto d : l) if (v.d == d) return true; return false; }
static V take(const struct rrr_type_value *v) {
	V r; r.d = v->definition; r.flags = v->flags; r.tag = v->tag ? std::string(v->tag, v->tag_length) : "";
	CHECK(v->element_count > 0 && v->total_stored_length % v->element_count == 0, "%u bytes in %u elements", v->total_stored_length, v->element_count);
	size_t l = v->total_stored_length / v->element_count; for (size_t i = 0; i < v->element_count; i++) r.el.push_back(l ? std::string(v->data + i * l, l) : ""); return r;
}
#define D(x) (&rrr_type_definition_##x)
// 1: converted, 0: not possible, -1: the documentation leaves it open
static int convert(V &o, const V &v, const std::string &m, bool sb, bool ss) {
	o = v; bool blobish = sb ? is(v, {D(blob)}) : is(v, {D(blob), D(sep), D(msg), D(str), D(nsep), D(stx), D(hdlc)}), strish = ss ? is(v, {D(str)}) : is(v, {D(str), D(sep), D(nsep), D(stx)});
	bool one = v.el.size() == 1; std::string data = v.data();
	if (m == "h2str") { if (v.d == D(str)) return 1; if (v.d != D(h)) return 0; o.d = D(str); o.flags = 0; for (auto &e : o.el) { std::string t = v.flags & 1 ? std::to_string((int64_t) num(e)) : std::to_string(num(e)); e = one ? t : std::string(20 - t.size(), ' ') + t; } return 1; }
	if (m == "h2vain") { if (v.d == D(vain)) return 1; if (v.d != D(h) || !one || num(v.el[0])) return 0; o.d = D(vain); o.flags = 0; o.el = {""}; return 1; }
	if (m == "blob2str") { if (v.d == D(str)) return 1; if (!blobish) return 0; o.d = D(str); return 1; }
	if (m == "blob2blob") { if (v.d == D(blob)) return 1; if (!blobish) return 0; o.d = D(blob); return data.empty() ? -1 : 1; }
	if (m == "blob2hex") { if (v.d == D(str)) return -1; if (!blobish) return 0; o.d = D(str); for (auto &e : o.el) { std::string h; char b[3]; for (unsigned char c : e) { snprintf(b, 3, "%02x", c); h += b; } e = h; } return 1; }
	if (m == "str2str") { if (v.d == D(str)) return 1; if (!strish) return 0; o.d = D(str); return 1; }
	if (m == "str2blob") { if (v.d == D(blob)) return 1; if (!strish || data.empty()) return 0; o.d = D(blob); return 1; }
	if (m == "str2h") {
		if (v.d == D(h)) return 1; if (!strish || data.empty()) return 0;
		if (data.find_first_not_of("0123456789 +-") != std::string::npos) return 0;
		bool sg = data.find('-') != std::string::npos; o.d = D(h); o.flags = sg;
		for (auto &e : o.el) { if (e.size() > 64) return 0; size_t i = e.find_first_not_of(' '); if (i == std::string::npos) return 0; size_t q = i; if (e[q] == '-' || e[q] == '+') q++; if (q == e.size() || e.find_first_not_of("0123456789", q) != std::string::npos) return 0; if (e.size() - q > 18) { unsigned __int128 x = 0; for (size_t k = q; k < e.size(); k++) { x = x * 10 + (unsigned) (e[k] - '0'); if (x >> 64) return -1; } if (sg && x > INT64_MAX) return -1; }
			errno = 0; e = sg ? u64s((uint64_t) strtoll(e.c_str(), NULL, 10)) : u64s(strtoull(e.c_str(), NULL, 10)); }
		return 1;
	}
	if (m == "str2vain") { if (v.d == D(vain)) return 1; if (!strish || !one || !data.empty()) return 0; o.d = D(vain); o.flags = 0; o.el = {""}; return 1; }
	if (m == "msg2blob") { if (v.d == D(blob)) return 1; if (v.d != D(msg)) return 0; o.d = D(blob); return 1; }
	if (m == "vain2h") { if (v.d == D(h)) return 1; if (v.d != D(vain)) return 0; o.d = D(h); o.flags = 0; o.el = {u64s(0)}; return 1; }
	if (m == "vain2str") { if (v.d == D(str)) return 1; if (v.d != D(vain)) return 0; o.d = D(str); o.flags = 0; o.el = {""}; return 1; }
	if (m == "hchar2str") { if (v.d == D(str)) return 1; if (v.d != D(h)) return 0; std::string t; for (auto &e : v.el) { if (num(e) > 255) return 0; t += (char) num(e); } o.d = D(str); o.flags = 0; o.el = {t}; return 1; }
	FAIL("method %s", m.c_str());
}
static struct rrr_type_value *build(const V &v) {
	struct rrr_type_value *r = NULL; std::string d = v.data();
	CHECK(rrr_type_value_new(&r, v.d, v.flags, (rrr_length) v.tag.size(), v.tag.data(), 0, NULL, (rrr_length) v.el.size(), NULL, (rrr_length) d.size()) == 0, "new value");
	if (!d.empty()) memcpy(r->data, d.data(), d.size());
	return r;
}
static void conversions(Src &s) {
	static const std::vector<std::string> M = {"h2str", "h2vain", "blob2str", "blob2blob", "blob2hex", "str2str", "str2blob", "str2h", "str2vain", "msg2blob", "vain2h", "vain2str", "hchar2str"};
	V v; v.flags = 0; v.tag = s.word(0, 4); size_t n = s.chance(1, 3) ? 1 + s.len(5) : 1, l = 1 + s.len(s.chance(1, 15) ? 70 : 22);
	switch (s.u(7)) {
		case 0: case 1: v.d = D(h); v.flags = s.flip(); for (size_t i = 0; i < n; i++) v.el.push_back(u64s(s.flip() ? s.n(300) : s.u64())); break;
		case 2: case 3: v.d = s.chance(1, 4) ? D(nsep) : D(str); if (v.d == D(nsep)) n = 1; if (s.chance(1, 4)) { v.d = D(str); n = 1; l = 0; }
			for (size_t i = 0; i < n; i++) { std::string e; if (s.chance(2, 3)) { e = std::to_string(s.chance(1, 4) ? s.i64() : (int64_t) s.n(500) - 100); if (s.chance(1, 8)) e = s.chars(l, "0123 -+"); } else e = s.bytes(l); e = e.size() < l ? std::string(l - e.size(), s.chance(1, 6) ? '+' : s.chance(1, 3) ? '0' : ' ') + e : e.substr(0, l); v.el.push_back(e); } break;
		case 4: v.d = D(vain); v.el = {""}; break;
		case 5: v.d = s.flip() ? D(sep) : D(stx); for (size_t i = 0; i < n; i++) v.el.push_back(s.chars(l, v.d == D(sep) ? "+-;,\n" : "\1\2")); break;
		case 6: v.d = D(fixp); v.el = {u64s((uint64_t) gen_fixp(s))}; break;
		default: v.d = s.chance(1, 4) ? D(hdlc) : D(blob); if (v.d == D(hdlc)) n = 1; for (size_t i = 0; i < n; i++) v.el.push_back(s.flip() ? s.bytes(l) : s.chars(l, "0123456789"));
	}
	std::vector<std::string> ms; for (size_t i = 1 + s.len(6); i; i--) ms.push_back(s.pick(M));
	bool sb = s.flip(), ss = s.flip(), cont = !s.chance(1, 5);
	struct rrr_map map = {}; for (auto &m : ms) CHECK(rrr_map_item_add_new(&map, m.c_str(), NULL) == 0, "map");
	desc("%s flags %u x%zu %s, methods", v.d->identifier, v.flags, v.el.size(), show(v.data()).c_str()); for (auto &m : ms) desc(" %s", m.c_str()); desc(sb ? " strict blobs" : ""); desc(ss ? " strict strings" : ""); desc(cont ? "" : " stop at errors");
	V cur = v; bool any = false, open = false, stop = false;
	for (auto &m : ms) { V o; int r = convert(o, cur, m, sb, ss); if (r < 0) { open = true; break; } if (r) { cur = o; any = true; } else if (!cont) { stop = true; break; } }
	struct rrr_type_conversion_collection *list = NULL; CHECK(rrr_type_conversion_collection_new_from_map(&list, &map) == 0, "list of methods");
	struct rrr_type_value *in = build(v), *out = NULL;
	int e = rrr_type_convert_using_list(&out, in, list, (cont ? RRR_TYPE_CONVERT_F_ON_ERROR_TRY_NEXT : 0) | (sb ? RRR_TYPE_CONVERT_F_STRICT_BLOBS : 0) | (ss ? RRR_TYPE_CONVERT_F_STRICT_STRINGS : 0));
	CHECK((e == 0) == (out != NULL), "return %d with%s value", e, out ? "" : "out");
	if (open) label("left open");
	else if (stop || !any) { label("not possible"); CHECK(e == RRR_TYPE_CONVERSION_NOT_POSSIBLE, "return %d, want not possible", e); }
	else {
		label("converted"); if (cur.d != v.d) nontrivial();
		CHECK(e == 0, "return %d, want a value", e); V got = take(out);
		CHECK(got.d == cur.d && got.tag == cur.tag && got.el == cur.el && (got.d != D(h) || got.flags == cur.flags), "result is %s flags %u x%zu %s, want %s flags %u x%zu %s", got.d->identifier, got.flags, got.el.size(), show(got.data()).c_str(), cur.d->identifier, cur.flags, cur.el.size(), show(cur.data()).c_str());
	}
	V after = take(in); CHECK(after.d == v.d && after.el == v.el && after.flags == v.flags && after.tag == v.tag, "the source value was changed");
	rrr_type_value_destroy(in); rrr_type_value_destroy(out); rrr_type_conversion_collection_destroy(list); rrr_map_clear(&map);
}
VP_TARGET_NOLEAK(conversions, 80000, "values of all types and element counts through lists of 1-7 conversion methods in all modes; non-trivial: the type changes");

static void init() { vp_lib_init(); }
VP_MAIN(init)
