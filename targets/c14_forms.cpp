// C14: URIs, form fields, quoted values and queries which are written can be read back as they were; hostile forms are harmless
#include "common.hpp"
extern "C" {
#include "lib/http/http_common.h"
#include "lib/http/http_part.h"
#include "lib/http/http_part_parse.h"
#include "lib/http/http_part_multipart.h"
#include "lib/http/http_fields.h"
#include "lib/http/http_header_fields.h"
#include "lib/http/http_util.h"
#include "lib/http/http_query_builder.h"
#include "lib/helpers/nullsafe_str.h"
#include "lib/helpers/string_builder.h"
#include "lib/array.h"
#include "lib/map.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

static S ns(const struct rrr_nullsafe_str *n) {
	if (!n) return "";
	S r; rrr_nullsafe_str_with_raw_do_const(n, [](const void *p, rrr_nullsafe_len l, void *a) -> int { *(S *) a = S((const char *) p, l); return 0; }, &r);
	return r;
}
struct NS { struct rrr_nullsafe_str *n = NULL; explicit NS(const S &s) { CHECK(rrr_nullsafe_str_new_or_replace_raw(&n, s.data(), (rrr_nullsafe_len) s.size()) == 0, "string"); } ~NS() { rrr_nullsafe_str_destroy_if_not_null(&n); } };
struct Fld { S name, value, type; bool has_value = true; };
typedef std::vector<Fld> Flds;
static S show_f(const Flds &f) { S r; for (auto &x : f) r += " [" + show(x.name, 80) + (x.has_value ? "=" + show(x.value, 80) : S()) + (x.type.size() ? " " + x.type : S()) + "]"; return r; }

// A request with a body, read as by the server
struct Req {
	struct rrr_http_part *p = NULL; char *b = NULL, *merged = NULL; int ret = -1; size_t n = 0;
	~Req() { if (p) rrr_http_part_destroy(p); free(b); rrr_free(merged); }
	void read(const S &uri, const S &type, const S &body, bool chunked, const char *method = "POST") {
		S w = S(method) + " " + uri + " HTTP/1.1\r\n" + (type.size() ? "Content-Type: " + type + "\r\n" : ""); char l[64];
		if (chunked) { snprintf(l, sizeof l, "%zx", body.size()); w += "Transfer-Encoding: chunked\r\n\r\n" + (body.size() ? S(l) + "\r\n" + body + "\r\n" : S()) + "0\r\n\r\n"; }
		else w += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		n = w.size(); b = (char *) malloc(n); memcpy(b, w.data(), n); CHECK(rrr_http_part_new(&p) == 0, "part");
		rrr_biglength pos = 0, pb, ts; do { ret = rrr_http_part_parse(p, &ts, &pb, b, pos, b + n, RRR_HTTP_PARSE_REQUEST); pos += pb; } while (ret == RRR_HTTP_PARSE_INCOMPLETE && pb);
		if (ret != RRR_HTTP_PARSE_OK) return;
		CHECK(ts == n, "request of %zu bytes has %llu", n, (unsigned long long) ts);
		CHECK(rrr_http_part_chunks_merge(&merged, p, b) == 0, "merge");
		ret = rrr_http_part_multipart_and_fields_process(p, merged ? merged : b, 0);
	}
	Flds fields() { Flds f; for (struct rrr_http_field *x = p->fields.ptr_first; x; x = x->ptr_next) { Fld g; g.name = ns(x->name); g.value = ns(x->value); g.type = ns(x->content_type); g.has_value = x->value && rrr_nullsafe_str_len(x->value); f.push_back(g); } return f; }
};
static void same(const Flds &got, const Flds &want, const char *what, bool types = false) {
	CHECK(got.size() == want.size(), "%s: %zu fields were read, not %zu:%s", what, got.size(), want.size(), show_f(got).c_str());
	for (size_t i = 0; i < got.size(); i++) { CHECK(got[i].name == want[i].name, "%s: name %zu is %s, not %s", what, i, show(got[i].name).c_str(), show(want[i].name).c_str());
		CHECK(got[i].value == (want[i].has_value ? want[i].value : S()), "%s: value %zu is %s, not %s", what, i, show(got[i].value).c_str(), show(want[i].value).c_str());
		if (types) CHECK(got[i].type == want[i].type, "%s: type %zu is '%s', not '%s'", what, i, got[i].type.c_str(), want[i].type.c_str()); }
}
// A part to make forms from
struct Maker {
	struct rrr_http_part *p = NULL; S out;
	Maker() { CHECK(rrr_http_part_new(&p) == 0, "part"); } ~Maker() { rrr_http_part_destroy(p); }
	void add(const Flds &f) { for (auto &x : f) CHECK(rrr_http_field_collection_add(&p->fields, x.name.data(), (rrr_length) x.name.size(), x.value.data(), x.has_value ? (rrr_length) x.value.size() : 0, x.type.data(), (rrr_length) x.type.size(), NULL) == 0, "add"); }
	static int cb(const struct rrr_nullsafe_str *s, void *a) { *(S *) a += ns(s); return 0; }
	S type() { for (struct rrr_http_header_field *h = p->headers.ptr_first; h; h = h->ptr_next) if (ns(h->name) == "content-type") return ns(h->value); return ""; }
	S full_type() { S r; for (struct rrr_http_header_field *h = p->headers.ptr_first; h; h = h->ptr_next) if (ns(h->name) == "content-type") { r = ns(h->value); for (struct rrr_http_field *f = h->fields.ptr_first; f; f = f->ptr_next) if (ns(f->name) != r) r += "; " + ns(f->name) + "=" + ns(f->value); } return r; }
};
static const char *hexd = "0123456789ABCDEF0123456789abcdef";
static S own_encode(Src &s, const S &v) {
	S r; for (unsigned char c : v) { bool safe = isalnum(c) || strchr("-_.~", c); if (c == 0) safe = false; if (safe && s.chance(7, 8)) r += (char) c; else if (c == ' ' && s.flip()) r += '+'; else { int o = s.flip() ? 16 : 0; r += '%'; r += hexd[o + (c >> 4)]; r += hexd[o + (c & 15)]; } }
	return r;
}
static Flds gen_fields(Src &s, bool multipart) {
	Flds f; size_t n = s.u(5);
	for (size_t i = 0; i < n; i++) { Fld x; x.name = multipart ? s.word(1, 12, "abcXYZ019-_.[]$ ;,=\"\\():@<>") : s.flip() ? s.word(1, 8) : s.bytes(1 + s.len(12)); x.has_value = s.chance(5, 6); if (x.has_value) x.value = s.chance(1, 3) ? s.word(1, 12, "\r\n-R=&+% ;\"") : s.bytes(1 + s.len(30)); if (multipart && s.chance(1, 3)) x.type = s.pick({"text/plain", "application/json", "a/b"}); f.push_back(x); }
	return f;
}

static void urlencoded(Src &s) {
	Flds f = gen_fields(s, false); desc("%s", show_f(f).c_str());
	Maker m; m.add(f); CHECK(rrr_http_part_post_x_www_form_body_make(m.p, 0, Maker::cb, &m.out) == 0, "form was not made");
	for (unsigned char c : m.out) CHECK(c > 32 && c < 127 && !strchr("\"<>\\^`{|}", c), "character %02x in form data %s", c, show(m.out).c_str());
	{ Req r; r.read("/", m.type(), m.out, s.flip()); CHECK(r.ret == 0, "form data was refused: %s", show(m.out).c_str()); same(r.fields(), f, "body"); }
	{ Req r; r.read("/x?" + m.out, "", "", false, "GET"); CHECK(r.ret == 0, "query was refused: %s", show(m.out).c_str()); same(r.fields(), f, "query"); }
	S own; for (size_t i = 0; i < f.size(); i++) { if (i) own += '&'; own += own_encode(s, f[i].name); if (f[i].has_value) own += "=" + own_encode(s, f[i].value); else if (s.flip()) own += '='; }
	bool amp = f.size() && s.chance(1, 5); if (amp) own += '&';
	desc(" own %s", show(own, 300).c_str());
	Req r; bool q = s.flip(); r.read(q ? "/x?" + own : "/", q ? "" : S("application/x-www-form-urlencoded") + (s.flip() ? "; charset=utf-8" : ""), q ? "" : own, s.flip(), s.flip() ? "POST" : "PUT"); CHECK(r.ret == 0, "own encoding was refused"); same(r.fields(), f, "own encoding");
	if (f.size() > 1) nontrivial();
}
VP_TARGET_NOLEAK(urlencoded, 100000, "fields with any bytes, made by RRR and by an independent encoder, read from a query and from a body; non-trivial: more than one field");

static void bad_percent(Src &s) {
	S w = s.word(0, 5) + "=" + s.word(0, 5), bad = s.pick({"%", "%1", "%zz", "%1z", "%z1", "%-1", "%+1", "% 1", "%%41", "%G0", "%0x"}); size_t at = s.u(w.size()); w.insert(at, bad); if (strlen(bad.c_str()) < 3 && at + bad.size() != w.size() && isxdigit((unsigned char) w[at + bad.size()])) { if (bad == "%1" || (at + bad.size() + 1 < w.size() && isxdigit((unsigned char) w[at + bad.size() + 1]))) discard(); }
	desc("%s", w.c_str()); nontrivial();
	{ Req r; r.read("/x?a" + w, "", "", false, "GET"); CHECK(r.ret == RRR_HTTP_PARSE_SOFT_ERR, "query was accepted:%s", show_f(r.fields()).c_str()); }
	{ Req r; r.read("/", "application/x-www-form-urlencoded", "a" + w, false); CHECK(r.ret == RRR_HTTP_PARSE_SOFT_ERR, "form data was accepted:%s", show_f(r.fields()).c_str()); }
	NS n(w); CHECK(rrr_http_util_urlencoded_string_decode(n.n) != 0, "decoded to %s", show(ns(n.n)).c_str());
}
VP_TARGET_NOLEAK(bad_percent, 20000, "strings with something which is no %-sequence; non-trivial: all");

static void encode(Src &s) {
	S v = s.flip() ? s.bytes(s.len(40)) : s.word(0, 20, "abcXYZ019-_.~!*'()%+ /?&=#\"<>\x7f\x80\xff"); NS in(v); struct rrr_nullsafe_str *out = NULL; desc("%s", show(v).c_str());
	CHECK(rrr_http_util_uri_encode(&out, in.n) == 0, "not encoded"); S e = ns(out), want; for (unsigned char c : v) if (c && (isalnum(c) || strchr("-_.!~*'()", c)) && c < 128) want += (char) c; else { want += '%'; want += hexd[c >> 4]; want += hexd[c & 15]; }
	S got = e; CHECK(rrr_http_util_urlencoded_string_decode(out) == 0, "not decoded"); S d = ns(out); rrr_nullsafe_str_destroy_if_not_null(&out);
	CHECK(got == want, "encoded %s", show(got).c_str()); CHECK(d == v, "decoded %s", show(d).c_str());
	S ep = own_encode(s, v); for (char &c : ep) if (c == '+') c = ' '; bool q = s.flip(); S qs = s.bytes_cheap(s.u(10)); S uri = ep + (q ? "?" + qs : S());   // the path is decoded, the query is not
	struct A { S e, q; } a; NS u(uri); if (uri.size()) { CHECK(rrr_http_util_uri_endpoint_and_query_string_split(u.n, [](const void *e, rrr_nullsafe_len el, const void *q, rrr_nullsafe_len ql, void *arg) -> int { A *a = (A *) arg; a->e = S((const char *) e, el); a->q = S((const char *) q, ql); return 0; }, &a) == 0, "not split"); CHECK(a.e == v, "endpoint %s", show(a.e).c_str()); CHECK(a.q == (q ? qs : S()), "query %s", show(a.q).c_str()); }
	if (v.size() > 1) nontrivial();
}
VP_TARGET_NOLEAK(encode, 100000, "strings of any bytes which are encoded, decoded, and split as URI; non-trivial: more than one byte");

static bool contains(const S &h, const S &n) { return h.find(n) != S::npos; }
static void multipart(Src &s) {
	Flds f = gen_fields(s, true); desc("%s", show_f(f).c_str());
	if (s.flip() && f.size()) {   // made by RRR
		Maker m; m.add(f); for (auto &x : f) if (contains(x.value, "--RRR")) discard();
		CHECK(rrr_http_part_multipart_form_data_make(m.p, Maker::cb, &m.out) == 0, "form was not made");
		Req r; r.read("/", m.full_type().find("boundary") != S::npos ? m.full_type() : m.type(), m.out, s.flip()); desc(" type %s", m.type().c_str()); CHECK(r.ret == 0, "form was refused: %s", show(m.out, 400).c_str()); desc(" %s", show(m.out).c_str()); same(r.fields(), f, "made by RRR", true); label("made by RRR"); nontrivial(); return;
	}
	S b = s.word(1, 1) + s.word(0, 20, "abcXYZ019-_'()+./:=?"); S body = s.chance(1, 5) ? "preamble\r\n" : "";
	for (auto &x : f) { if (contains(x.value, "--" + b) || contains(S("preamble"), "--" + b)) discard(); S q; for (char c : x.name) { if (c == '"' || c == '\\') q += '\\'; q += c; }
		S h1 = s.flip() ? "Content-Disposition: form-data; name=\"" : "content-disposition:form-data;name=\""; h1 += q + "\"" + (s.chance(1, 3) ? "; filename=\"f;x.txt\"" : "") + "\r\n"; S h2 = x.type.size() ? "Content-Type: " + x.type + "\r\n" : ""; if (s.flip()) std::swap(h1, h2);
		body += "--" + b + "\r\n" + h1 + h2 + (s.chance(1, 5) ? "X-Other: a, b; c=d\r\n" : "") + "\r\n" + (x.has_value ? x.value : S()) + "\r\n"; }
	if (f.empty()) { f.push_back(Fld()); f[0].name = "a"; f[0].value = "b"; body += "--" + b + "\r\nContent-Disposition: form-data; name=a\r\n\r\nb\r\n"; }
	body += "--" + b + "--\r\n"; if (s.chance(1, 5)) body += "epilogue\r\n";
	for (auto &x : f) if (contains(x.name, b) && b.size() < 3) discard();
	desc(" own %s", show(body, 400).c_str());
	Req r; bool quote = s.flip() || strpbrk(b.c_str(), "'()+./:=?"); r.read("/", "multipart/form-data; boundary=" + (quote ? "\"" + b + "\"" : b), body, s.flip(), s.flip() ? "POST" : "PUT"); CHECK(r.ret == 0, "form was refused"); same(r.fields(), f, "own form", true); label("own"); nontrivial();
}
VP_TARGET_NOLEAK(multipart, 100000, "multipart forms made by RRR or by an independent writer with any boundary, names with special characters, values of any bytes, types, filenames, preamble and epilogue, with a length or in chunks; non-trivial: all");

static void hostile(Src &s) {
	S body; S type = "multipart/form-data; boundary=A"; size_t depth = 0;
	if (s.chance(1, 60)) { depth = 1 + s.n(thorough() ? 20000 : 4000); S end; S nm; for (size_t i = 0; i < depth; i++) { char x[16], y[16]; snprintf(x, sizeof x, "%zx", i); snprintf(y, sizeof y, "%zx", i + 1); body += S("--") + (i ? x : "A") + "\r\nContent-Type: multipart/form-data; boundary=" + y + "\r\n\r\n"; } for (size_t i = depth; i-- > 0; ) { char x[16]; snprintf(x, sizeof x, "%zx", i); body += S("\r\n--") + (i ? x : "A") + "--\r\n"; } label("deep"); }
	else {
		static const std::vector<const char *> pieces = {"--A\r\n", "\r\n--A\r\n", "--A--\r\n", "\r\n--A--\r\n", "--A", "--B\r\n", "\r\n--B--\r\n", "\r\n", "Content-Type: multipart/form-data; boundary=A\r\n", "Content-Type: multipart/form-data; boundary=B\r\n", "Content-Type: multipart/form-data\r\n", "Content-Disposition: form-data; name=a\r\n", "Content-Disposition: form-data; name=\"\r\n", "Content-Disposition: form-data; name=\"a\\\"\r\n", "Content-Length: 5\r\n", "Content-Length: 18446744073709551000\r\n", "Transfer-Encoding: chunked\r\n", "x", "0\r\n\r\n", "x: y\r\n", "Connection: close\r\n", "\r", "\n", "Host: a\r\n", ":\r\n", ": x\r\n", "a=b&c=%41&", "%4", "%", "=", "&", "{\"a\":1}"};
		size_t n = 1 + s.len(24); for (size_t i = 0; i < n; i++) body += s.chance(1, 10) ? S(1, (char) s.u(255)) : S(s.pick(pieces));
		if (s.chance(1, 4)) type = s.pick({"application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=\"\"", "multipart/form-data", "multipart/form-data; boundary=\"A", "multipart/form-data; boundary=%41"});
	}
	desc("%s %s", type.c_str(), show(body, 300).c_str());
	Req r; r.read(s.chance(1, 5) ? "/?" + s.word(0, 6, "a=&%4+") : "/", type, body, s.flip()); 
	if (r.ret == 0) { for (auto &f : r.fields()) CHECK(f.name.size() + f.value.size() <= 2 * body.size() + 20, "field larger than the form"); label("accepted"); } else { CHECK(r.ret == RRR_HTTP_PARSE_SOFT_ERR, "result %d", r.ret); label("refused"); }
	nontrivial();
}
VP_TARGET_NOLEAK(hostile, 100000, "forms put together from pieces of forms at random, and parts nested in parts up to 4000 deep (20000 on the thorough tier); non-trivial: all");

static void quote(Src &s) {
	S v = s.word(1, 16, s.flip() ? "ab\\\"" : "abcXYZ019 \t()<>@,;:\\\".[]/?={}!#$%&'*+-^_`|~"); desc("%s", show(v).c_str());
	NS n(v); char *q = rrr_http_util_header_value_quote_nullsafe(n.n, '"', '"'); CHECK(q, "not quoted"); S qs = q; rrr_free(q);
	bool quoted = qs[0] == '"' && qs != v; S in = quoted ? qs : v; CHECK(quoted || qs == v, "%s", show(qs).c_str());
	if (quoted) { CHECK(qs.size() >= 2 && qs.back() == '"', "quoted as %s", show(qs).c_str()); S un; for (size_t i = 1; i + 1 < qs.size(); i++) { if (qs[i] == '\\') i++; else CHECK(qs[i] != '"', "quote ends early: %s", show(qs).c_str()); CHECK(i + 1 < qs.size(), "quote does not end: %s", show(qs).c_str()); un += qs[i]; } CHECK(un == v, "quoted as %s", show(qs).c_str());
		NS w(qs); CHECK(rrr_http_util_unquote_string(w.n) == 0, "not unquoted"); CHECK(ns(w.n) == v, "quoted as %s, unquoted to %s", show(qs).c_str(), show(ns(w.n)).c_str()); }
	else CHECK(!strpbrk(v.c_str(), " \t()<>@,;:\\\"[]"), "%s was not quoted", show(v).c_str());
	S bad = v; bad.insert(s.u(bad.size()), 1, (char) (s.flip() ? s.u(12) == 9 ? 1 : (int) s.range(1, 8) : s.range(0x7f, 0xff))); NS nb(bad); char *q2 = rrr_http_util_header_value_quote_nullsafe(nb.n, '"', '"'); bool got = q2 != NULL; rrr_free(q2); CHECK(!got, "control character was accepted: %s", show(bad).c_str());
	if (quoted) nontrivial();
}
VP_TARGET_NOLEAK(quote, 60000, "values with special characters which are quoted and unquoted, also by an independent reader; non-trivial: the value needed quotes");

static void uri(Src &s) {
	S proto = s.weighted({1, 5}) ? S(s.pick({"http", "https", "ws", "wss"})) : S(); S p2 = proto; for (char &c : p2) if (s.chance(1, 8)) c = (char) toupper(c);
	S host = s.flip() ? s.word(1, 10, "abcXYZ019") : s.word(1, 6, "ab09") + "-" + s.word(1, 4, "ab.-") + "z"; int port = s.flip() ? (int) s.pick(std::vector<int>{1, 80, 443, 8080, 65535, 1883}) : 0;
	S path = s.chance(1, 6) ? S() : "/" + s.word(0, 16, "abcXYZ019/-_.~!$&'()*+,;=:@%"); if (proto.empty() && path.compare(0, 2, "//") == 0) path = "/a" + path; S query = path.size() && s.chance(1, 3) ? "?" + s.word(0, 8, "ab=&%2+") + (s.chance(1, 4) ? "u=http://x/" : "") : S();
	S u = proto.size() ? p2 + "://" + host + (port ? ":" + std::to_string(port) : S()) + path + query : path + query; if (u.empty()) u = path = "/";
	bool bad = s.chance(1, 4); S what;
	if (bad) switch (s.u(6)) {
		case 0: u = S(s.pick({"ftp", "httpx", "httpss", "wsx", "xhttp", "", "h", "mailto", "wsss"})) + "://" + host + path; what = "protocol"; break;
		case 1: u = "http://" + host + ":" + s.pick({"0", "65536", "99999", "x", "", "-1", "99999999999999999999", "4294967376"}) + path; what = "port"; break;
		case 2: u = "https://" + host + s.pick({"_", "!", "@", "=", ",", "*", "%41", "[", "(", "~"}) + host + path; what = "host"; break;
		case 3: u = "http://-" + host + path; what = "host begins with a minus"; break;
		case 4: u += s.pick({" ", "\"", "<", ">", "\\", "{", "}", "\x7f", "\x80", "\x01"}); what = "character"; break;
		case 5: u = "http://" + host + ":80" + s.pick({"x", "80a", ":80", ".", "a/b"}); what = "after port"; break;
		default: u = p2.size() ? p2 + "://" : S("http://"); what = "nothing after protocol"; break;
	}
	desc("%s%s", show(u).c_str(), bad ? (" bad " + what).c_str() : "");
	NS n(u); struct rrr_http_uri *r = NULL; int ret = rrr_http_util_uri_parse(&r, n.n);
	if (bad) { S d; if (r) { d = S(r->protocol ? r->protocol : "") + " " + (r->host ? r->host : "") + " " + std::to_string(r->port) + " " + r->endpoint; rrr_http_util_uri_destroy(r); } CHECK(ret, "bad %s was accepted as %s", what.c_str(), d.c_str()); label("refused"); nontrivial(); return; }
	CHECK(!ret, "refused"); S gp = r->protocol ? r->protocol : "", gh = r->host ? r->host : "", ge = r->endpoint ? r->endpoint : ""; int port_got = r->port; struct rrr_http_uri_flags fl; rrr_http_util_uri_flags_get(&fl, r); struct rrr_http_uri dup; memset(&dup, 0, sizeof dup); CHECK(rrr_http_util_uri_dup(&dup, r) == 0, "dup"); bool same_dup = gp == (dup.protocol ? dup.protocol : "") && gh == (dup.host ? dup.host : "") && ge == (dup.endpoint ? dup.endpoint : "") && dup.port == r->port; rrr_http_util_uri_clear(&dup); rrr_http_util_uri_destroy(r);
	CHECK(gp == proto, "protocol '%s', not '%s'", gp.c_str(), proto.c_str()); CHECK(gh == (proto.size() ? host : S()), "host '%s', not '%s'", gh.c_str(), host.c_str()); CHECK(ge == path + query, "endpoint '%s', not '%s'", ge.c_str(), (path + query).c_str()); CHECK(same_dup, "the copy differs");
	int want = proto.empty() ? 0 : port ? port : proto == "https" || proto == "wss" ? 443 : 80; CHECK(port_got == want, "port %d, not %d", port_got, want);
	CHECK(fl.is_http == (proto[0] == 'h') && fl.is_websocket == (proto[0] == 'w') && fl.is_tls == (proto.size() && proto.back() == 's' && proto != "ws"), "flags http %d websocket %d tls %d", fl.is_http, fl.is_websocket, fl.is_tls);
	if (proto.size()) nontrivial();
}
VP_TARGET_NOLEAK(uri, 100000, "URIs made from protocol in any case, host, port, path and query, and URIs with one bad component; non-trivial: there is a protocol or a bad component");

// The line protocol: name=value pairs; values in double quotes may hold anything
static void query(Src &s) {
	bool quoted = s.flip(); struct rrr_array a; memset(&a, 0, sizeof a); a.version = 7; struct G { struct rrr_array *a; ~G() { rrr_array_clear(a); } } g{&a};
	struct P { S n, v; bool has; bool str; }; std::vector<P> want; size_t n = 1 + s.u(4); const char *vch = quoted ? "ab\\\" ,=\r\n\t0" : "ab\" ,=\t0";
	for (size_t i = 0; i < n; i++) { P p; p.n = s.word(1, 6, "ab0 ,=\"") + std::to_string(i); p.has = true; p.str = false;
		switch (s.u(3)) { case 0: { uint64_t v = s.u64(); p.v = std::to_string(v); CHECK(rrr_array_push_value_u64_with_tag(&a, p.n.c_str(), v) == 0, "push"); break; }
			case 1: { int64_t v = s.i64(); p.v = std::to_string(v); CHECK(rrr_array_push_value_i64_with_tag(&a, p.n.c_str(), v) == 0, "push"); break; }
			case 2: { p.v = s.word(1, 10, vch); p.str = true; CHECK(rrr_array_push_value_blob_with_tag_with_size(&a, p.n.c_str(), p.v.data(), (rrr_length) p.v.size()) == 0, "push"); break; }
			default: { p.v = s.word(0, 10, vch); p.str = true; p.has = p.v.size(); CHECK(rrr_array_push_value_str_with_tag(&a, p.n.c_str(), p.v.c_str()) == 0, "push"); } }
		want.push_back(p); }
	struct rrr_map cols; memset(&cols, 0, sizeof cols); std::vector<P> w2; bool sel = s.flip(); if (sel) for (auto &p : want) if (s.flip()) { P q = p; const char *as = NULL; if (s.flip()) { q.n = "re,name" + std::to_string(w2.size()); as = q.n.c_str(); } CHECK(rrr_map_item_add_new(&cols, p.n.c_str(), as) == 0, "map"); w2.push_back(q); } if (w2.empty()) w2 = want;
	struct rrr_http_query_builder b; CHECK(rrr_http_query_builder_init(&b) == 0, "init"); bool nosep = s.flip(); int ret = rrr_http_query_builder_append_values_from_array(&b, &a, &cols, ",", nosep, quoted); S q = rrr_http_query_builder_buf_get(&b) ? rrr_http_query_builder_buf_get(&b) : ""; rrr_http_query_builder_cleanup(&b); rrr_map_clear(&cols);
	desc("quoted %d selected %d: %s", quoted, sel, show(q).c_str()); CHECK(ret == 0, "failed");
	std::vector<P> got; size_t i = 0; if (!nosep) { CHECK(q[0] == ',', "no separator"); i = 1; }
	while (i < q.size()) { P p; p.has = false; while (i < q.size() && q[i] != '=' && q[i] != ',') { if (q[i] == '\\' && i + 1 < q.size()) i++; p.n += q[i++]; }
		if (i < q.size() && q[i] == '=') { p.has = true; i++; if (i < q.size() && q[i] == '"' && quoted) { i++; bool end = false; while (i < q.size()) { if (q[i] == '\\' && i + 1 < q.size()) { i++; p.v += q[i++]; continue; } if (q[i] == '"') { i++; end = true; break; } p.v += q[i++]; } CHECK(end, "quoted string does not end"); CHECK(i == q.size() || q[i] == ',', "something comes after a quoted string"); } else while (i < q.size() && q[i] != ',') { CHECK(q[i] != ' ' && q[i] != '=' && q[i] != '"', "not escaped"); if (q[i] == '\\' && i + 1 < q.size()) i++; p.v += q[i++]; } }
		got.push_back(p); if (i < q.size()) i++; }
	CHECK(got.size() == w2.size(), "%zu values, not %zu", got.size(), w2.size()); for (size_t k = 0; k < got.size(); k++) CHECK(got[k].n == w2[k].n && got[k].has == w2[k].has && got[k].v == w2[k].v, "value %zu is %s=%s, not %s=%s", k, show(got[k].n).c_str(), show(got[k].v).c_str(), show(w2[k].n).c_str(), show(w2[k].v).c_str());
	for (auto &p : w2) if (p.str) nontrivial();
}
VP_TARGET_NOLEAK(query, 60000, "arrays of numbers, strings and blobs written as name=value pairs with and without quotes, all or renamed values, read back by an independent reader; non-trivial: there is a string");

static void init() { vp_lib_init(); }
VP_MAIN(init)
