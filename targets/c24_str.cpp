// C24: binary safe strings and string builder against std::string
#include "common.hpp"
extern "C" {
#include "lib/helpers/nullsafe_str.h"
#include "lib/helpers/string_builder.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::unique_ptr<char[]> Buf; static Buf exact(const std::string &s) { Buf p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); return p; }
typedef struct rrr_nullsafe_str NS;
static std::string val(const NS *n) { size_t l = rrr_nullsafe_str_len(n); return l ? std::string((const char *) rrr_nullsafe_str_ptr_const(n), l) : std::string(); }
static std::vector<std::string> got; static std::vector<size_t> pos; static std::vector<int> last; static int g_ret; static size_t g_at; static const char *g_base;
static int done() { return got.size() == g_at ? g_ret : 0; }
static int cb_chr(const void *p, rrr_nullsafe_len l, void *) { got.push_back(std::string((const char *) p, l)); return g_ret; }
static int cb_split(const NS *n, int is_last, void *) { got.push_back(val(n)); last.push_back(is_last); return done(); }
static int cb_raw(const void *p, rrr_nullsafe_len l, void *) { got.push_back(std::string((const char *) p, l)); return g_ret; }
static int cb_two(const void *p, rrr_nullsafe_len l, const void *q, rrr_nullsafe_len m, void *) { got.push_back(std::string((const char *) p, l)); got.push_back(std::string((const char *) q, m)); return g_ret; }
static int cb_str(const NS *h, const NS *n, const NS *a, const NS *b, void *) { size_t hl = rrr_nullsafe_str_len(h), al = rrr_nullsafe_str_len(a), bl = rrr_nullsafe_str_len(b); CHECK(al <= hl && al == bl + rrr_nullsafe_str_len(n), "remaining lengths"); pos.push_back(hl - al); CHECK(val(a) == val(h).substr(hl - al) && val(b) == val(h).substr(hl - bl), "remaining text"); got.push_back(""); return done(); }
static int cb_z(const char *z, void *) { got.push_back(z); return g_ret; }
static int cb_len(rrr_nullsafe_len *l, void *p, void *arg) { got.push_back(std::string((const char *) p, *l)); size_t n = *(size_t *) arg; if (n < *l) *l = n; if (*l) *(char *) p = '!'; return g_ret; }
static int cb_byte(char c, void *) { got.push_back(std::string(1, c)); return done(); }
static int conv(NS **r, const NS *n) { std::string v = "<" + val(n) + ">"; return rrr_nullsafe_str_new_or_replace_raw(r, v.data(), v.size()); }
static int creat(NS **r, void *a) { std::string *v = (std::string *) a; return v->size() % 5 == 4 ? 3 : rrr_nullsafe_str_new_or_replace_raw(r, v->data(), v->size()); }
static std::string gen(Src &s) { switch (s.u(3)) { case 0: return s.chars(s.n(8), "ab, "); case 1: return s.bytes(s.n(12)); case 2: return s.chars(s.n(20), "aAbB"); default: return s.flip() ? "" : s.chars(s.n(600), "a \xc3\xa5") + (s.flip() ? std::string(1, 0) : ""); } }
static void nullsafe(Src &s) {
	std::vector<NS *> v(3, (NS *) NULL); std::vector<std::string> m(3); size_t n = 3 + s.len(25); desc("%zu steps", n); size_t big = 0;
	auto low = [](std::string x) { for (auto &c : x) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return x; };
	for (size_t st = 0; st < n; st++) {
		size_t i = s.u(2), j = s.u(2); NS *&a = v[i]; std::string &A = m[i]; std::string d = gen(s); Buf b = exact(d); got.clear(); pos.clear(); last.clear(); g_ret = s.flip() ? 0 : 5; g_at = s.n(4) + 1; int r = 0; if (A.size() > big) big = A.size();
		if (!a) { switch (s.u(3)) { case 0: r = rrr_nullsafe_str_new_or_replace_raw(&a, b.get(), d.size()); A = d; break; case 1: r = rrr_nullsafe_str_new_or_replace_empty(&a); break; case 2: if (v[j]) { r = rrr_nullsafe_str_dup(&a, v[j]); A = m[j]; } else CHECK(rrr_nullsafe_str_dup(&a, NULL) != 0, "copy of nothing"); break; default: r = rrr_nullsafe_str_new_or_append_raw(&a, b.get(), d.size()); A = d; } CHECK(r == 0, "new"); }
		else switch (s.u(18)) {
			case 0: CHECK(rrr_nullsafe_str_append_raw(a, b.get(), d.size()) == 0, "append"); A += d; break;
			case 1: CHECK(rrr_nullsafe_str_prepend_raw(a, b.get(), d.size()) == 0, "prepend"); A = d + A; break;
			case 2: if (v[j] && i != j) { if (s.flip()) { CHECK(rrr_nullsafe_str_append(a, v[j]) == 0, "append"); A += m[j]; } else { CHECK(rrr_nullsafe_str_append_with_converter(a, v[j], conv) == 0, "append"); A += "<" + m[j] + ">"; } } break;
			case 3: r = rrr_nullsafe_str_append_with_creator(a, creat, &d); CHECK((r != 0) == (d.size() % 5 == 4), "creator"); if (!r) A += d; break;
			case 4: { int k = (int) s.u(1000); if (s.flip()) { CHECK(rrr_nullsafe_str_append_asprintf(a, "%i-%s", k, "x") == 0, "format"); A += std::to_string(k) + "-x"; } else { CHECK(rrr_nullsafe_str_prepend_asprintf(a, "%s%i", "", k) == 0, "format"); A = std::to_string(k) + A; } break; }
			case 5: switch (s.u(3)) { case 0: r = rrr_nullsafe_str_set(a, b.get(), d.size()); A = d; break; case 1: { void *p = rrr_allocate(d.size() + 1); memcpy(p, b.get(), d.size()); if (s.flip()) rrr_nullsafe_str_set_allocated(a, &p, d.size()); else r = rrr_nullsafe_str_new_or_replace_raw_allocated(&a, &p, d.size()); CHECK(p == NULL, "pointer"); A = d; break; } case 2: rrr_nullsafe_str_clear(a); A = ""; break; default: if (v[j] && i != j) { r = rrr_nullsafe_str_new_or_replace(&a, v[j]); A = m[j]; } } CHECK(r == 0, "set"); break;
			case 6: if (i != j) { rrr_nullsafe_str_move(&v[j], &a); CHECK(a == NULL, "moved"); m[j] = A; A = ""; } break;
			case 7: { char c = s.flip() || A.empty() ? 'b' : A[s.n(A.size() - 1)]; r = rrr_nullsafe_str_chr(a, c, cb_chr, NULL); size_t p = A.find(c); CHECK(p == std::string::npos ? got.empty() && r == 0 : got.size() == 1 && got[0] == A.substr(p) && r == g_ret, "search for %02x in %s", (unsigned) (uint8_t) c, show(A).c_str()); break; }
			case 8: { char c = s.flip() || A.empty() ? ',' : A[s.n(A.size() - 1)]; r = rrr_nullsafe_str_split(a, c, cb_split, NULL); std::vector<std::string> w; size_t at = 0; if (!A.empty()) for (;;) { size_t p = A.find(c, at); w.push_back(A.substr(at, p == std::string::npos ? p : p - at)); if (p == std::string::npos) break; at = p + 1; }
				size_t all = w.size(); if (g_ret && w.size() >= g_at) { w.resize(g_at); CHECK(r == g_ret, "split returns %d", r); } else CHECK(r == 0, "split returns %d", r); CHECK(got == w, "%s is split in %zu pieces at %02x, expected %zu", show(A).c_str(), got.size(), (unsigned) (uint8_t) c, w.size()); for (size_t k = 0; k < w.size(); k++) CHECK(last[k] == (k + 1 == all), "piece %zu of %zu: last is %d", k, all, last[k]); if (all > 1) label("split"); break; }
			case 9: { NS *nd = NULL; std::string q = A.size() && s.chance(2, 3) ? A.substr(s.n(A.size() - 1), 1 + s.n(3)) : d; if (q.empty()) break; CHECK(rrr_nullsafe_str_new_or_replace_raw(&nd, q.data(), q.size()) == 0, "new"); std::vector<size_t> w; for (size_t p = A.find(q); p != std::string::npos; p = A.find(q, p + 1)) w.push_back(p);
				if (s.flip()) r = rrr_nullsafe_str_str(a, nd, cb_str, NULL); else { Buf x = exact(A); r = rrr_nullsafe_str_str_raw(x.get(), A.size(), nd, cb_str, NULL); } if (g_ret && w.size() >= g_at) { w.resize(g_at); CHECK(r == g_ret, "search returns %d", r); } else CHECK(r == 0, "search returns %d", r); CHECK(pos == w, "%s is found %zu times in %s, expected %zu", show(q).c_str(), pos.size(), show(A).c_str(), w.size());
				CHECK(rrr_nullsafe_str_begins_with(a, nd) == (A.compare(0, q.size(), q) == 0), "begins with"); if (!w.empty()) label("found"); rrr_nullsafe_str_destroy_if_not_null(&nd); break; }
			case 10: { std::string q = s.flip() ? A : s.flip() ? low(A) : d; if (s.chance(1, 4) && q.size()) q[s.n(q.size() - 1)] ^= 0x20; q = q.c_str(); CHECK((rrr_nullsafe_str_cmpto(a, q.c_str()) == 0) == (q == A), "comparison of %s with %s", show(A).c_str(), show(q).c_str()); CHECK((rrr_nullsafe_str_cmpto_case(a, q.c_str()) == 0) == (low(q) == low(A)), "comparison of %s with %s", show(A).c_str(), show(q).c_str()); break; }
			case 11: rrr_nullsafe_str_tolower(a); A = low(A); break;
			case 12: { std::string set = s.flip() ? " " : s.chars(s.n(3), "ab, \n"); if (set == " ") rrr_nullsafe_str_trim(a); else rrr_nullsafe_str_trim_set(a, set.data(), (rrr_length) set.size()); while (!A.empty() && set.find(A.back()) != std::string::npos) A.pop_back(); break; }
			case 13: { size_t bs = 1 + s.n(40); Buf o(new char[bs]); rrr_nullsafe_str_output_strip_null_append_null_trim(s.chance(1, 10) ? NULL : a, o.get(), bs); std::string w = A.substr(0, bs - 1); for (auto &c : w) if (!c) c = 'N'; CHECK(w == o.get() || !*o.get(), "output is %s, expected %s", show(o.get()).c_str(), show(w).c_str()); break; }
			case 14: { char *o = NULL; CHECK(rrr_nullsafe_str_extract_append_null(&o, a) == 0 && std::string(o, A.size() + 1) == A + std::string(1, 0), "extracted text"); rrr_free(o); CHECK(rrr_nullsafe_str_has_null(a) == (A.find('\0') != std::string::npos), "has zero"); CHECK(!!rrr_nullsafe_str_isset(a) == !A.empty(), "is set");
				size_t non = 0, k = 0; bool z = false; for (; k < A.size() && k < 512; k++) { if (!A[k]) { z = true; break; } if ((uint8_t) A[k] > 127) non++; } CHECK(rrr_nullsafe_str_check_likely_binary(a) == (z || (k && 10 * non >= 3 * k)), "likely binary: %s", show(A).c_str()); break; }
			case 15: { size_t ts = s.n(30); Buf o(new char[ts]); rrr_nullsafe_len wr = 99; rrr_nullsafe_str_copyto(&wr, o.get(), ts, a); std::string w = A.substr(0, ts); CHECK(wr == w.size() && !memcmp(o.get(), w.data(), wr), "copied"); break; }
			case 16: { std::string w = A; switch (s.u(5)) { case 0: r = rrr_nullsafe_str_with_raw_do_const(a, cb_raw, NULL); break; case 1: { size_t o = s.n(A.size()); r = rrr_nullsafe_str_with_raw_do_const_offset(a, o, cb_raw, NULL); w = A.substr(o); break; } case 2: { size_t o = s.n(A.size()), l = s.n(A.size() - o); r = rrr_nullsafe_str_with_raw_truncated_do(a, o, l, cb_raw, NULL); w = A.substr(o, l); break; } case 3: r = rrr_nullsafe_str_with_raw_null_terminated_do(a, cb_z, NULL); w = A.c_str(); break; case 4: r = rrr_nullsafe_str_with_raw_do_double_const(v[j], a, cb_two, NULL); CHECK(got.size() == 2 && got[0] == m[j], "first of two"); got.erase(got.begin()); break; case 5: w = ""; r = rrr_nullsafe_str_with_raw_do_const(NULL, cb_raw, NULL); }
				CHECK(got.size() == 1 && got[0] == w && r == g_ret, "callback is given %s, expected %s", got.empty() ? "nothing" : show(got[0]).c_str(), show(w).c_str()); break; }
			case 17: { size_t l = s.n(A.size() + 2); r = rrr_nullsafe_str_with_raw_do(a, cb_len, &l); CHECK(r == g_ret && got[0] == A, "callback"); size_t nl = std::min(l, A.size()); std::string w = A; if (nl) w[0] = '!'; if (!g_ret) w.resize(nl); A = w; break; }
			case 18: { r = rrr_nullsafe_str_foreach_byte_do(a, cb_byte, NULL); size_t k = g_ret ? std::min(g_at, A.size()) : A.size(); std::string g; for (auto &x : got) g += x; CHECK(g == A.substr(0, k) && r == (g_ret && A.size() >= g_at ? g_ret : 0), "bytes"); break; }
		}
		for (size_t k = 0; k < 3; k++) CHECK(val(v[k]) == m[k], "string is %s, expected %s", show(val(v[k])).c_str(), show(m[k]).c_str());
	}
	for (auto &x : v) rrr_nullsafe_str_destroy_if_not_null(&x); if (big > 10) nontrivial();
}
VP_TARGET_NOLEAK(nullsafe, 30000, "a string is longer than ten bytes");
static void builder(Src &s) {
	struct rrr_string_builder st[2]; memset(st, 0, sizeof st); std::string m[2]; struct rrr_string_builder *heap = NULL; CHECK(rrr_string_builder_new(&heap) == 0, "new"); struct rrr_string_builder *v[2] = {&st[0], heap}; size_t n = 3 + s.len(25), big = 0; desc("%zu steps", n);
	for (size_t k = 0; k < n; k++) { size_t i = s.u(1); auto *b = v[i]; std::string &M = m[i]; std::string d = s.chance(1, 6) ? s.chars(1000 + s.n(1200), "xyz") : s.chars(s.n(30), "abc%"); if (s.chance(1, 8)) d.clear(); if (M.size() > big) big = M.size();
		switch (s.u(10)) {
			case 0: case 1: CHECK(rrr_string_builder_append(b, d.c_str()) == 0, "append"); M += d; break;
			case 2: { std::string r = s.bytes(s.n(20)); if (s.flip()) r = d; Buf x = exact(r); CHECK(rrr_string_builder_append_raw(b, x.get(), r.size()) == 0, "append"); M += r; break; }
			case 3: CHECK(rrr_string_builder_append_from(b, v[1 - i]) == 0, "append"); M += m[1 - i]; break;
			case 4: if (s.flip()) { CHECK(rrr_string_builder_append_format(b, "%s", d.c_str()) == 0, "format of %s", show(d).c_str()); M += d; } else { CHECK(rrr_string_builder_append_format(b, "%i,%s", 42, d.c_str()) == 0, "format"); M += "42," + d; } break;
			case 5: { size_t c = s.u(2000); CHECK(rrr_string_builder_reserve(b, d.size() + c) == 0, "reserve"); CHECK(rrr_string_builder_size(b) >= M.size() + d.size() + c + 1, "size after reserve"); rrr_string_builder_unchecked_append(b, d.c_str()); M += d; if (c > 10) { rrr_string_builder_unchecked_append(b, "0123456789"); M += "0123456789"; } break; }
			case 6: rrr_string_builder_chop(b); if (!M.empty()) M.pop_back(); break;
			case 7: if (s.chance(1, 3)) { rrr_string_builder_truncate(b); M.clear(); } break;
			case 8: if (s.chance(1, 3)) { rrr_string_builder_clear(b); M.clear(); } break;
			case 9: if (s.chance(1, 3)) { char *p = rrr_string_builder_buffer_takeover(b); CHECK(p ? std::string(p, M.size() + 1) == M + std::string(1, 0) : M.empty(), "text taken over"); if (p) rrr_free(p); M.clear(); } break;
			case 10: break;
		}
		for (int j = 0; j < 2; j++) { const char *p = rrr_string_builder_buf(v[j]); CHECK(rrr_string_builder_length(v[j]) == m[j].size(), "length is %llu, expected %zu", (unsigned long long) rrr_string_builder_length(v[j]), m[j].size()); CHECK(p ? std::string(p, m[j].size() + 1) == m[j] + std::string(1, 0) : m[j].empty(), "text differs"); CHECK(!p || rrr_string_builder_size(v[j]) > m[j].size(), "size"); }
	}
	rrr_string_builder_clear(&st[0]); rrr_string_builder_destroy(heap); if (big > 1024) nontrivial();
}
VP_TARGET_NOLEAK(builder, 30000, "a text needs more than the first allocation");
static void init() { vp_lib_init(); }
VP_MAIN(init)
