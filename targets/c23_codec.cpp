// C23: encodings, digests and character handling
#include "common.hpp"
#include <zlib.h>
#include <openssl/evp.h>
extern "C" {
#include "lib/util/base64.h"
#include "lib/util/hex.h"
#include "lib/util/crc32.h"
#include "lib/util/sha256.h"
#include "lib/sha1/sha1.h"
#include "lib/util/utf8.h"
#include "lib/util/rrr_endian.h"
#include "lib/util/rrr_str.h"
#include "lib/util/gnu.h"
#include "lib/util/rrr_time.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::unique_ptr<char[]> Buf; static Buf exact(const std::string &s) { Buf p(new char[s.size()]); memcpy(p.get(), s.data(), s.size()); return p; }
static const char *STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", *URL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
static std::string enc(const std::string &d, const char *t, bool pad, size_t line) {
	std::string o; size_t col = 0; for (size_t i = 0; i < d.size(); i += 3) { uint32_t v = 0; size_t n = std::min<size_t>(3, d.size() - i); for (size_t k = 0; k < 3; k++) v = v << 8 | (k < n ? (uint8_t) d[i + k] : 0); for (size_t k = 0; k < 4; k++) if (k <= n) o += t[v >> (18 - 6 * k) & 63]; else if (pad) o += '='; col += 4; if (line && col >= line) { o += '\n'; col = 0; } }
	if (line && col) o += '\n'; return o;
}
// Reference decoder of permitted characters; false: not valid
static bool dec(std::string &o, const std::string &in, const char *t, bool pad) {
	std::vector<int> v; size_t p = 0; o.clear(); size_t total = 0; for (char c : in) if ((c && strchr(t, c)) || (pad && c == '=')) total++;
	if (total == 0 || (pad ? total % 4 != 0 : total % 4 == 1)) return false;
	for (char c : in) { const char *q = c ? strchr(t, c) : NULL; if (q) v.push_back((int) (q - t)); else if (pad && c == '=') { v.push_back(0); p++; } else continue;
		if (v.size() == 4) { o += (char) (v[0] << 2 | v[1] >> 4); o += (char) (v[1] << 4 | v[2] >> 2); o += (char) (v[2] << 6 | v[3]); v.clear(); if (p > 2) return false; if (p) { o.resize(o.size() - p); return true; } } }
	if (v.size() >= 2) o += (char) (v[0] << 2 | v[1] >> 4); if (v.size() == 3) o += (char) (v[1] << 4 | v[2] >> 2); return true;
}
static void base64(Src &s) {
	bool url = s.flip(); const char *t = url ? URL : STD; rrr_biglength l = 0; auto encode = url ? rrr_base64url_encode : rrr_base64_encode, decode = url ? rrr_base64url_decode : rrr_base64_decode;
	std::string d = s.bytes(s.weighted({8, 1}) ? s.n(3000) : s.n(130)); Buf b = exact(d); desc("%s of %zu bytes", url ? "base64url" : "base64", d.size());
	unsigned char *r = encode((unsigned char *) b.get(), d.size(), &l); CHECK(r != NULL, "encoding fails"); std::string e((char *) r, l); CHECK(r[l] == 0, "no terminating zero"); rrr_free(r); std::string want = enc(d, t, !url, url ? 0 : 72); CHECK(e == want, "encoded as %s, expected %s", show(e).c_str(), show(want).c_str());
	if (!d.empty()) { b = exact(e); r = decode((unsigned char *) b.get(), e.size(), &l); CHECK(r != NULL, "own encoding of %zu bytes cannot be decoded", d.size()); CHECK(std::string((char *) r, l) == d, "decoded data differs"); rrr_free(r); nontrivial(); }
	// anything
	std::string in = s.flip() ? e : enc(s.bytes(s.n(20)), t, !url, 0); for (int i = 0, k = (int) s.u(4); i < k; i++) { size_t p = s.n(in.size()); switch (s.u(4)) { case 0: in.insert(p, s.pick({"=", "\n", " ", "+", "-", "/", "_", "\r\n", "==", "A"})); break; case 1: in.insert(p, s.bytes(1)); break; case 2: if (p < in.size()) in.erase(p, 1); break; case 3: in.resize(p); break; case 4: in += std::string(s.n(3), '='); } }
	b = exact(in); std::string w; bool ok = dec(w, in, t, !url); r = decode((unsigned char *) b.get(), in.size(), &l); label(ok ? "valid" : "not valid"); CHECK((r != NULL) == ok, "%s is %s", show(in).c_str(), r ? "accepted" : "refused"); if (r) { CHECK(std::string((char *) r, l) == w, "%s is decoded as %s, expected %s", show(in).c_str(), show(std::string((char *) r, l)).c_str(), show(w).c_str()); rrr_free(r); }
}
VP_TARGET_NOLEAK(base64, 60000, "data of at least one byte is encoded and decoded");
static std::string evp(const EVP_MD *m, const std::string &d) { unsigned char o[64]; unsigned n = 0; EVP_Digest(d.data(), d.size(), o, &n, m, NULL); return std::string((char *) o, n); }
static void digest(Src &s) {
	size_t n = s.weighted({3, 6}) ? s.n(300) : s.pick({0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128}); if (s.chance(1, 30)) n = s.n(20000); std::string d = s.bytes_cheap(n); Buf b = exact(d); desc("%zu bytes", n); if (n) nontrivial();
	uint8_t h[RRR_SHA256_SIZE]; rrr_sha256_calculate(h, b.get(), n); CHECK(std::string((char *) h, 32) == evp(EVP_sha256(), d), "wrong SHA-256 of %zu bytes", n);
	rrr_SHA1Context c; rrr_SHA1Reset(&c); size_t at = 0; std::vector<size_t> cuts = s.cuts(n, 5); cuts.push_back(n); for (size_t x : cuts) { rrr_SHA1Input(&c, (unsigned char *) b.get() + at, (unsigned) (x - at)); at = x; }
	CHECK(rrr_SHA1Result(&c) == 1, "SHA-1 fails"); rrr_SHA1toBE(&c); CHECK(std::string((char *) c.Message_Digest, 20) == evp(EVP_sha1(), d), "wrong SHA-1 of %zu bytes", n);
	uint32_t w = (uint32_t) crc32(0, (const Bytef *) d.data(), (uInt) n), g = rrr_crc32buf(b.get(), n); CHECK(g == w, "CRC32 is %08x, expected %08x", g, w); CHECK(rrr_crc32cmp(b.get(), n, w) == 0, "right CRC32 is refused"); uint32_t x = s.flip() ? w ^ 1u << s.u(31) : (uint32_t) s.u64(); CHECK((rrr_crc32cmp(b.get(), n, x) == 0) == (x == w), "wrong CRC32 is accepted");
	char *hex = NULL; rrr_biglength hl = 0; if (n > 2000) return; CHECK(rrr_hex_bin_to_hex(&hex, &hl, b.get(), (rrr_length) n) == 0, "hex fails"); std::string hw; for (char k : d) { hw += "0123456789abcdef"[(uint8_t) k >> 4]; hw += "0123456789abcdef"[k & 15]; } CHECK(hl == hw.size() && hw == hex, "hex is %s", hex); rrr_free(hex);
}
VP_TARGET_NOLEAK(digest, 20000, "there is data");
// RFC 3629: 1 valid
static bool u8(std::vector<uint32_t> &o, const std::string &d) {
	for (size_t i = 0; i < d.size();) { uint8_t c = (uint8_t) d[i]; int n = c < 0x80 ? 0 : (c & 0xe0) == 0xc0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : (c & 0xf8) == 0xf0 ? 3 : -1; if (n < 0 || i + (size_t) n >= d.size()) return false; uint32_t v = n == 0 ? c : c & (0x3f >> n); for (int k = 1; k <= n; k++) { if (((uint8_t) d[i + (size_t) k] & 0xc0) != 0x80) return false; v = v << 6 | ((uint8_t) d[i + (size_t) k] & 0x3f); }
		static const uint32_t MIN[] = {0, 0x80, 0x800, 0x10000}; if (v < MIN[n] || v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff)) return false; o.push_back(v); i += (size_t) n + 1; } return true;
}
static std::vector<uint32_t> g_chars; static size_t g_stop;
static int chr_cb(uint32_t c, void *a) { CHECK(a == &g_chars, "argument"); g_chars.push_back(c); return g_chars.size() == g_stop ? 7 : 0; }
static void text(Src &s) {
	std::string d; for (int i = 0, n = (int) s.u(6); i < n; i++) switch (s.u(5)) { case 0: d += gen_utf8(s, 8); break; case 1: d += (char) s.pick({0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x80, 0xbf}); d += (char) s.pick({0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0}); for (int k = (int) s.u(2); k > 0; k--) d += (char) s.pick({0x7f, 0x80, 0xbf, 0xc0, 0xa0}); break; case 2: d += s.bytes(s.n(4)); break; case 3: d += "text"; break; case 4: d += std::string(1, 0); break; default: { std::string u = gen_utf8(s, 4); u.resize(s.n(u.size())); d += u; } }
	if (s.chance(1, 3) && !d.empty()) d[s.n(d.size() - 1)] ^= (char) (1 << s.u(7)); Buf b = exact(d); std::vector<uint32_t> cp; bool ok = u8(cp, d); desc("%s", show(d).c_str()); label(ok ? "valid" : "not valid"); for (uint32_t c : cp) if (c > 127) { nontrivial(); break; }
	CHECK((rrr_utf8_validate(b.get(), (rrr_length) d.size()) == 0) == ok, "%s is %s", show(d).c_str(), ok ? "refused" : "accepted");
	const char *p = b.get(), *end = p + d.size(); for (uint32_t c : cp) { uint32_t g = 0; CHECK(rrr_utf8_get_character(&g, &p, end) == 0 && g == c, "character is %x, expected %x", g, c); } if (ok) CHECK(p == end, "position"); else { uint32_t g; CHECK(rrr_utf8_get_character(&g, &p, end) != 0 && p <= end, "invalid character is accepted"); }
	if (d.find('\0') == std::string::npos) { g_chars.clear(); g_stop = s.chance(1, 4) ? 1 + s.n(5) : 0; int r = rrr_utf8_validate_and_iterate(b.get(), (rrr_length) d.size(), chr_cb, &g_chars); bool st = g_stop && cp.size() >= g_stop; if (st) { CHECK(r == 7, "returned %d", r); cp.resize(g_stop); } else CHECK((r == 0) == ok, "%s is %s", show(d).c_str(), ok ? "refused" : "accepted"); CHECK(g_chars == cp, "characters differ"); }
	// case, search, format
	std::string z = d.substr(0, d.find('\0')); for (int i = (int) s.u(3); i > 0; i--) z += s.pick({"aZ", "Az", "zZzZ[", "@A`a", "xyZ"}); Buf zb(new char[z.size() + 1]); strcpy(zb.get(), z.c_str()); std::string up, lo; for (char c : z) { up += c >= 'a' && c <= 'z' ? (char) (c - 32) : c; lo += c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
	if (s.flip()) { rrr_utf8_strtoupper(zb.get()); CHECK(up == zb.get(), "upper case of %s is %s", show(z).c_str(), show(zb.get()).c_str()); } else { rrr_str_tolower(zb.get()); CHECK(lo == zb.get(), "lower case of %s is %s", show(z).c_str(), show(zb.get()).c_str()); }
	std::string ndl = s.flip() ? s.chars(s.n(3), "aAzZxX@`") : lo.substr(s.n(lo.size()), s.n(4)); std::string nlo; for (char c : ndl) nlo += c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; size_t at = lo.find(nlo); char *f = rrr_strcasestr(z.c_str(), ndl.c_str()); CHECK(at == std::string::npos ? f == NULL : f == z.c_str() + at, "%s is searched for in %s", show(ndl).c_str(), show(z).c_str());
	char *o = NULL; int w = (int) s.u(300), r; std::string exp; char tmp[1000]; switch (s.u(3)) { case 0: r = rrr_asprintf(&o, "%s", z.c_str()); exp = z; break; case 1: r = rrr_asprintf(&o, "%*d|%s", w, 17, z.c_str()); snprintf(tmp, sizeof tmp, "%*d|", w, 17); exp = tmp + z; break; case 2: r = rrr_asprintf(&o, "%.*s", w, z.c_str()); exp = z.substr(0, (size_t) w); break; default: r = rrr_asprintf(&o, "%" PRIu64 "%c%x", (uint64_t) w * 123456789, 'x', w); exp = std::to_string((uint64_t) w * 123456789) + "x"; snprintf(tmp, sizeof tmp, "%x", w); exp += tmp; }
	CHECK(r == (int) exp.size() && o && exp == o, "formatted as %s (%d), expected %s", o, r, show(exp).c_str()); rrr_free(o);
	uint64_t v = s.u64(); uint8_t be[8], le[8]; for (int i = 0; i < 8; i++) { be[i] = (uint8_t) (v >> (56 - 8 * i)); le[i] = (uint8_t) (v >> (8 * i)); } uint64_t t = rrr_htobe64(v); CHECK(!memcmp(&t, be, 8) && rrr_be64toh(t) == v, "be64"); t = rrr_htole64(v); CHECK(!memcmp(&t, le, 8) && rrr_le64toh(t) == v, "le64"); uint32_t t4 = rrr_htobe32((uint32_t) v); CHECK(!memcmp(&t4, be + 4, 4) && rrr_be32toh(t4) == (uint32_t) v, "be32"); t4 = rrr_htole32((uint32_t) v); CHECK(!memcmp(&t4, le, 4) && rrr_le32toh(t4) == (uint32_t) v, "le32"); uint16_t t2 = rrr_htobe16((uint16_t) v); CHECK(!memcmp(&t2, be + 6, 2) && rrr_be16toh(t2) == (uint16_t) v, "be16"); t2 = rrr_htole16((uint16_t) v); CHECK(!memcmp(&t2, le, 2) && rrr_le16toh(t2) == (uint16_t) v, "le16");
	struct timeval tv; rrr_time_from_usec(&tv, v >> 10); CHECK((uint64_t) tv.tv_sec * 1000000 + (uint64_t) tv.tv_usec == v >> 10 && tv.tv_usec < 1000000, "time");
}
VP_TARGET_NOLEAK(text, 60000, "there are characters outside ASCII");
static void init() { vp_lib_init(); }
VP_MAIN(init)
