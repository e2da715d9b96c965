// C22: compression and decompression
#include "common.hpp"
#include <zlib.h>
extern "C" {
#include "lib/zlib/rrr_zlib.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/http/http_util.h"
}
VP_LOG_PREFIX
using namespace vp;
static std::string gen_data(Src &s, size_t max) {
	std::string d; size_t n = s.len(max);
	switch (s.u(3)) {
		case 0: d = s.bytes(n); break;
		case 1: d.assign(n, (char) s.u(255)); break;
		default: { std::string w = s.bytes(1 + s.n(20)); while (d.size() < n) { d += w; if (s.chance(1, 10) && d.size() < n) d += s.bytes(s.n(30)); } d.resize(n); }
	}
	return d;
}
static std::string own_deflate(const std::string &d, int wbits, int level, int strategy, bool name, Src &s) {
	z_stream z; memset(&z, 0, sizeof(z)); CHECK(deflateInit2(&z, level, Z_DEFLATED, wbits, 1 + (int) s.u(8), strategy) == Z_OK, "deflateInit2");
	gz_header h; memset(&h, 0, sizeof(h)); std::string nm = s.chars(s.len(5), "abc."), ex = s.bytes(s.len(6)); if (name && wbits > 15) { h.name = (Bytef *) nm.c_str(); h.extra = (Bytef *) ex.data(); h.extra_len = (uInt) ex.size(); h.time = 12345; h.hcrc = 1; CHECK(deflateSetHeader(&z, &h) == Z_OK, "header"); }
	std::string out(compressBound(d.size()) + 300 + d.size() / 2 + 100 * 20, 0); size_t op = 0; z.next_in = (Bytef *) d.data(); int f = s.flip() ? Z_FULL_FLUSH : Z_SYNC_FLUSH; auto cut = s.flip() ? s.cuts(d.size(), 6) : std::vector<size_t>(); size_t at = 0;
	z.next_out = (Bytef *) &out[0]; z.avail_out = (uInt) out.size();
	for (size_t c : cut) { z.avail_in = (uInt) (c - at); at = c; CHECK(deflate(&z, f) == Z_OK || z.avail_in == 0, "deflate"); }
	z.avail_in = (uInt) (d.size() - at); CHECK(deflate(&z, Z_FINISH) == Z_STREAM_END, "deflate end"); op = z.total_out; deflateEnd(&z); out.resize(op); return out;
}
// 0 ok, 1 not valid
static int own_inflate(std::string &out, size_t &used, const std::string &in, size_t limit) {
	z_stream z; memset(&z, 0, sizeof(z)); CHECK(inflateInit2(&z, 47) == Z_OK, "inflateInit2"); out.resize(limit); z.next_in = (Bytef *) in.data(); z.avail_in = (uInt) in.size(); z.next_out = (Bytef *) &out[0]; z.avail_out = (uInt) limit;
	int r = inflate(&z, Z_FINISH); out.resize(z.total_out); used = z.total_in; inflateEnd(&z); return r == Z_STREAM_END ? 0 : 1;
}
static size_t outsize(Src &s) { return s.weighted({3, 3, 2}) == 0 ? 1 + s.u(64) : s.flip() ? 1 + s.u(5000) : 512 * 1024; }
static size_t g_size;
struct Api { int how; size_t os; };
static int rrr(Src &s, bool comp, const std::string &in, std::string &out) {
	std::string ex = in; ex.shrink_to_fit(); std::unique_ptr<char[]> p(new char[in.size()]); memcpy(p.get(), in.data(), in.size()); char *r = (char *) 1; rrr_biglength l = 99; int ret;
	switch (s.weighted({4, 1, 1, 1})) {
		case 0: { size_t o = outsize(s); if (o < g_size / 100) o = g_size / 100; ret = comp ? rrr_zlib_gzip_compress_with_outsize(&r, &l, p.get(), (rrr_length) in.size(), (rrr_length) o) : rrr_zlib_gzip_decompress_with_outsize(&r, &l, p.get(), (rrr_length) in.size(), (rrr_length) o); if (in.size() > o) label("buffer grows"); break; }
		case 1: ret = comp ? rrr_zlib_gzip_compress(&r, &l, p.get(), (rrr_length) in.size()) : rrr_zlib_gzip_decompress(&r, &l, p.get(), (rrr_length) in.size()); break;
		default: {
			struct rrr_nullsafe_str *a = NULL, *b = NULL, *e = NULL; CHECK(rrr_nullsafe_str_new_or_replace_raw(&a, p.get(), in.size()) == 0 && rrr_nullsafe_str_new_or_replace_empty(&b) == 0 && rrr_nullsafe_str_new_or_replace_raw(&e, "GZip", 4) == 0, "strings"); if (s.flip()) rrr_nullsafe_str_set(b, "old", 3);
			if (in.size() && s.flip()) { label("http"); ret = comp ? rrr_http_util_encode(b, a, "gzip") : rrr_http_util_decode(b, a, e); } else ret = comp ? rrr_zlib_gzip_compress_nullsafe(b, a) : rrr_zlib_gzip_decompress_nullsafe(b, a);
			CHECK(rrr_nullsafe_str_len(a) == in.size() && (in.empty() || !memcmp(rrr_nullsafe_str_ptr_const(a), in.data(), in.size())), "input is changed");
			if (!ret) { l = rrr_nullsafe_str_len(b); out.assign(l ? (const char *) rrr_nullsafe_str_ptr_const(b) : "", l); }
			rrr_nullsafe_str_destroy_if_not_null(&a); rrr_nullsafe_str_destroy_if_not_null(&b); rrr_nullsafe_str_destroy_if_not_null(&e); return ret;
		}
	}
	if (ret == 0) { CHECK(r != NULL, "success without result"); out.assign(r, l); rrr_free(r); } else CHECK(r == NULL && l == 0, "result is given in spite of error");
	return ret;
}
static void zlib(Src &s) {
	std::string d = gen_data(s, s.chance(1, 40) ? 1500000 : s.chance(1, 6) ? 60000 : 3000), c, o; size_t used; desc("%zu bytes", d.size()); g_size = d.size();
	switch (s.weighted({3, 2, 4, 1})) {
		case 0: { // both ways
			label("round trip"); CHECK(rrr(s, true, d, c) == 0, "compression of %zu bytes fails", d.size());
			CHECK(c.size() >= 18 && (uint8_t) c[0] == 0x1f && (uint8_t) c[1] == 0x8b, "the result is not gzip"); CHECK(own_inflate(o, used, c, d.size() + 10) == 0 && used == c.size(), "compressed data cannot be read"); CHECK(o == d, "compressed data differs from the input");
			CHECK(rrr(s, false, c, o) == 0, "own data cannot be decompressed"); CHECK(o == d, "data after compression and decompression differs: %zu bytes, expected %zu", o.size(), d.size()); if (d.size() > 100) nontrivial(); break; }
		case 1: { // data from others
			label("foreign"); int wb = s.flip() ? 31 : 9 + (int) s.u(6); if (s.flip() && wb > 15) wb = 16 + 9 + (int) s.u(6); c = own_deflate(d, wb, (int) s.u(9), s.pick({Z_DEFAULT_STRATEGY, Z_HUFFMAN_ONLY, Z_RLE, Z_FIXED, Z_FILTERED}), s.flip(), s);
			CHECK(rrr(s, false, c, o) == 0, "valid data cannot be decompressed"); CHECK(o == d, "decompressed data differs: %zu bytes, expected %zu", o.size(), d.size()); if (d.size() > 100) nontrivial(); break; }
		case 2: { // damaged
			c = own_deflate(d, s.chance(2, 3) ? 31 : 15, (int) s.u(9), Z_DEFAULT_STRATEGY, s.chance(1, 4), s);
			switch (s.u(3)) { case 0: c.resize(s.n(c.size() - 1)); label("truncated"); break; case 1: for (int i = 0, k = 1 + (int) s.u(3); i < k; i++) c[s.n(c.size() - 1)] ^= (char) (1 << s.u(7)); label("bits"); break; case 2: c.insert(s.n(c.size()), s.bytes(1 + s.n(8))); label("insert"); break; case 3: c.erase(s.n(c.size() - 1), 1 + s.n(8)); label("erase"); break; }
			std::string w; int r = own_inflate(w, used, c, d.size() + 100000), g = rrr(s, false, c, o); label_if(r != 0, "invalid");
			CHECK((r != 0) == (g != 0), "%s data is %s", r ? "invalid" : "valid", g ? "refused" : "accepted"); if (!g) CHECK(o == w, "decompressed data differs: %zu bytes, expected %zu", o.size(), w.size()); if (r) nontrivial(); break; }
		case 3: { // anything
			c = s.flip() ? s.bytes(s.n(60)) : s.pick({"\x1f\x8b", "\x1f\x8b\x08", "\x1f\x8b\x08\x04", "\x78\x9c", "\x78\xbb"}) + s.bytes(s.n(40)); std::string w; int r = own_inflate(w, used, c, 1000000), g = rrr(s, false, c, o); label("random");
			CHECK((r != 0) == (g != 0), "%s data is %s", r ? "invalid" : "valid", g ? "refused" : "accepted"); if (!g) CHECK(o == w, "decompressed data differs"); break; }
	}
}
VP_TARGET_NOLEAK(zlib, 12000, "more than 100 bytes are converted correctly, or invalid data is refused");
static void init() { vp_lib_init(); }
VP_MAIN(init)
