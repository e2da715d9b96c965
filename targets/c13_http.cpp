// C13: HTTP/1.1 messages are parsed to what they hold, however they arrive; ambiguous and hostile framing is refused
#include "common.hpp"
extern "C" {
#include "lib/http/http_common.h"
#include "lib/http/http_part.h"
#include "lib/http/http_part_parse.h"
#include "lib/http/http_fields.h"
#include "lib/http/http_header_fields.h"
#include "lib/http/http_util.h"
#include "lib/helpers/nullsafe_str.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

static S ns(const struct rrr_nullsafe_str *n) {
	if (!n) return "";
	S r; rrr_nullsafe_str_with_raw_do_const(n, [](const void *p, rrr_nullsafe_len l, void *a) -> int { *(S *) a = S((const char *) p, l); return 0; }, &r);
	return r;
}
static S low(S s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }

// The parser driven as by the application: the same bytes at another place for every read
struct Parse {
	struct rrr_http_part *part = NULL; rrr_biglength pos = 0, target = 0; int ret = RRR_HTTP_PARSE_INCOMPLETE; int type; size_t given = 0;
	explicit Parse(int t) : type(t) { CHECK(rrr_http_part_new(&part) == 0, "no part"); }
	~Parse() { rrr_http_part_destroy(part); }
	Parse(const Parse &) = delete;
	void feed(const S &all, size_t n) {
		char *b = (char *) malloc(n ? n : 1); memcpy(b, all.data(), n); given = n; rrr_biglength pb, ts = 0; long rounds = 0;
		do {
			CHECK(pos <= n, "the parser stands at byte %llu of %zu", (unsigned long long) pos, n);
			CHECK(++rounds < (long) n + 10, "the parser does not come to an end");
			ret = rrr_http_part_parse(part, &ts, &pb, b, pos, b + n, (enum rrr_http_parse_type) type);
			pos += pb;
		} while (pb && ret == RRR_HTTP_PARSE_INCOMPLETE);
		if (ret == RRR_HTTP_PARSE_OK) target = ts;
		free(b);
	}
};
static int chunk_cb(int idx, int total, const char *p, rrr_biglength n, rrr_biglength, void *a) { (void) idx; (void) total; ((S *) a)->append(p, n); return 0; }

struct Hdr { S name, value; int kind = 0; S first, sub, subval; std::vector<S> list; unsigned long long num = 0; };   // kind 0: unknown name, 1: single string, 2: list, 3: unsigned, 4: with a first value and a subvalue
struct Msg {
	int type = 0; S wire, method, uri; int version = 11, code = 0; std::vector<Hdr> h; int mode = 0; S body; size_t top = 0, total = 0; int conn = 0;   // mode 0: none, 1: length, 2: chunked, 3: until close
};
static const char *TOK = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~";
static const char *tokw = "abcXYZ019-_.!";
static S ows(Src &s) { return s.chance(1, 4) ? s.chars(s.u(2), " \t") : ""; }
static S gcase(Src &s, const char *n) { S r = n; if (s.flip()) for (char &c : r) if (s.flip()) c = (char) toupper(c); return r; }
static S gvalue(Src &s, bool specials) {
	size_t n = 1 + s.len(30); S r; for (size_t i = 0; i < n; i++) { unsigned k = s.u(9);
		r += k == 0 && specials ? "=;,:<>\"/"[s.u(7)] : k == 1 && i && i + 1 < n ? " \t "[s.u(2)] : k == 2 ? (char) s.range(0x21, 0x7e) : k == 3 && s.chance(1, 4) ? (char) s.range(0x80, 0xff) : "abcdefgh0123XYZ."[s.u(15)];
		if (!specials && strchr("=;,", r.back())) r.back() = 'k'; if (r.size() > 1 && r.back() == ',' && r[r.size() - 2] == ';') r.back() = 'k'; }   // a comma after a semicolon starts a new element on purpose
	return r;
}
static void add(Msg &m, Src &s, Hdr h) {
	m.wire += h.name + ":" + (s.chance(7, 8) ? " " : "") + ows(s) + h.value + ows(s) + "\r\n"; m.h.push_back(h);
}
static const std::vector<const char *> single = {"host", "upgrade", "date", "location", "content-encoding", "access-control-request-headers", "sec-websocket-version", "http2-settings"};
static const std::vector<const char *> unknown = {"x-token", "cookie", "authorization", "etag", "referer", "x", "user-agent", "x-clue", "if-none-match", "x-signature", "content-lengthy", "hos", "te"};
static Hdr header(Src &s) {
	Hdr h;
	switch (s.weighted({5, 3, 2, 2})) {
		case 0: h.name = s.chance(1, 4) ? "Z-" + s.word(1, 12, TOK) : gcase(s, s.pick(unknown)); h.value = gvalue(s, true); if (s.chance(1, 12)) h.value = ""; break;
		case 1: h.kind = 1; h.name = gcase(s, s.pick(single)); h.value = gvalue(s, false); if (s.chance(1, 3)) h.value += s.pick({"; a=b", ",c", "=", ";", "a=;b"}); break;
		case 2: { h.kind = 2; h.name = gcase(s, s.pick({"accept", "accept-language", "cache-control", "link", "vary", "accept-encoding"})); size_t n = 1 + s.u(4);
			for (size_t i = 0; i < n; i++) { h.list.push_back(s.word(1, 8, "abcde/*-019.")); h.value += (i ? S(",") + (s.chance(3, 4) ? " " : "") : S()) + h.list.back(); } break; }
		default: h.kind = 4; h.name = gcase(s, "content-type"); h.first = s.word(1, 10, "abcdefgh/-.+"); h.value = h.first; if (s.flip()) { h.sub = s.pick({"charset", "boundary"}); h.subval = s.word(1, 12, "abcXYZ019-_"); bool q = s.flip(); h.value += S(s.flip() ? "; " : ";") + h.sub + "=" + (q ? "\"" : "") + h.subval + (q ? "\"" : ""); }
	}
	return h;
}
static S hexnum(Src &s, unsigned long long v) { char b[40]; snprintf(b, sizeof b, s.flip() ? "%llx" : "%llX", v); return (s.chance(1, 5) ? S(s.u(4), '0') : "") + b; }
static Msg gen(Src &s) {
	Msg m; m.type = s.flip() ? RRR_HTTP_PARSE_RESPONSE : RRR_HTTP_PARSE_REQUEST; m.version = s.chance(1, 4) ? 10 : 11; S ver = gcase(s, m.version == 10 ? "http/1.0" : "http/1.1"); S sp = " ", sp2 = " ";
	if (s.chance(1, 8)) { sp = s.chars(1 + s.u(2), " \t"); sp2 = s.chars(1 + s.u(2), " \t"); }
	if (m.type == RRR_HTTP_PARSE_REQUEST) {
		m.method = s.pick({"GET", "OPTIONS", "POST", "PUT", "PATCH", "HEAD", "DELETE"});
		m.uri = "/" + s.word(0, 30, "abcXYZ019-_.~%/?&=+:@!$'()*,;#[]\"\\<>\x80\xff"); if (s.chance(1, 8)) m.uri = "http://host" + m.uri; if (s.chance(1, 10)) m.uri = "*";
		m.wire = m.method + sp + m.uri + sp2 + ver + "\r\n";
	} else {
		static const int codes[] = {200, 200, 404, 500, 204, 101, 100, 999, 301};
		m.code = codes[s.u(8)]; char b[16]; snprintf(b, sizeof b, "%d", m.code); m.wire = ver + sp + b + (s.chance(3, 4) ? sp2 + gvalue(s, true) : S(s.flip() ? " " : "")) + "\r\n";
	}
	std::set<S> used; size_t n = s.u(6), at = s.u(6); S con = s.chance(1, 3) ? S(s.pick({"close", "keep-alive", "Close", "Keep-Alive", "other"})) : "";
	m.mode = s.weighted({2, 4, 5}); if (m.type == RRR_HTTP_PARSE_RESPONSE && m.mode == 0 && m.code != 204 && m.code != 101) m.mode = 3;
	m.body = m.mode == 0 ? "" : s.bytes_cheap(s.len(300));
	if (m.mode == 2 && s.chance(1, 5)) m.body = s.word(0, 40, "\r\n0123;abc");
	for (size_t i = 0; i <= 6; i++) {
		if (i == at) { Hdr h; if (m.mode == 1) { h.kind = 3; h.name = gcase(s, "content-length"); h.num = m.body.size(); h.value = std::to_string(h.num); add(m, s, h); } if (m.mode == 2) { h.kind = 1; h.name = gcase(s, "transfer-encoding"); h.value = gcase(s, "chunked"); add(m, s, h); }
			if (con.size()) { Hdr c; c.kind = 2; c.name = gcase(s, "connection"); c.value = con; c.list = {con}; add(m, s, c); } }
		if (i < n) { Hdr h = header(s); if (h.kind == 0 || used.insert(low(h.name)).second) add(m, s, h); }
	}
	m.conn = low(con) == "close" ? RRR_HTTP_CONNECTION_CLOSE : low(con) == "keep-alive" ? RRR_HTTP_CONNECTION_KEEPALIVE : m.version == 10 ? RRR_HTTP_CONNECTION_CLOSE : RRR_HTTP_CONNECTION_KEEPALIVE;
	m.wire += "\r\n"; m.top = m.wire.size();
	if (m.mode == 1) m.wire += m.body;
	if (m.mode == 2) {
		for (size_t i = 0; i < m.body.size(); ) { size_t k = std::min(m.body.size() - i, 1 + s.len(60)); m.wire += hexnum(s, k) + "\r\n" + m.body.substr(i, k) + "\r\n"; i += k; }
		m.wire += s.chance(1, 5) ? "000\r\n\r\n" : "0\r\n\r\n";
	}
	if (m.mode == 3) m.wire += m.body;
	m.total = m.wire.size();
	return m;
}
static const char *rn(int r) { return r == RRR_HTTP_PARSE_OK ? "complete" : r == RRR_HTTP_PARSE_INCOMPLETE ? "incomplete" : "refused"; }
// All fields of one name, in order
static std::vector<const struct rrr_http_header_field *> get(struct rrr_http_part *p, const S &n) { std::vector<const struct rrr_http_header_field *> v; for (struct rrr_http_header_field *f = p->headers.ptr_first; f; f = f->ptr_next) if (ns(f->name) == low(n)) v.push_back(f); return v; }
static void check_headers(struct rrr_http_part *p, const Msg &m) {
	if (m.type == RRR_HTTP_PARSE_REQUEST) {
		CHECK(ns(p->request_method_str_nullsafe) == m.method, "method is '%s', was '%s'", show(ns(p->request_method_str_nullsafe)).c_str(), m.method.c_str());
		CHECK(ns(p->request_uri_nullsafe) == m.uri, "URI is '%s', was '%s'", show(ns(p->request_uri_nullsafe)).c_str(), show(m.uri).c_str());
		CHECK(p->request_method == rrr_http_util_method_str_to_enum(m.method.c_str()), "method number %d", p->request_method);
	} else CHECK((int) p->response_code == m.code, "response code is %u, was %d", p->response_code, m.code);
	CHECK(p->parsed_version == (m.version == 10 ? RRR_HTTP_VERSION_10 : RRR_HTTP_VERSION_11), "version %d", p->parsed_version);
	CHECK(p->parsed_connection == m.conn, "connection handling is %d, not %d", p->parsed_connection, m.conn);
	CHECK(RRR_HTTP_PART_TOP_LENGTH(p) == m.top, "header ends at %llu, not %zu", (unsigned long long) RRR_HTTP_PART_TOP_LENGTH(p), m.top);
	std::map<S, std::vector<const Hdr *>> want; for (auto &h : m.h) want[low(h.name)].push_back(&h);
	size_t total = 0;
	for (auto &w : want) {
		auto have = get(p, w.first); size_t i = 0; total += have.size();
		for (auto h : w.second) {
			CHECK(i < have.size(), "header '%s' is missing", h->name.c_str());
			CHECK(ns(have[i]->value_full) == h->value, "value of '%s' is '%s', was '%s'", h->name.c_str(), show(ns(have[i]->value_full)).c_str(), show(h->value).c_str());
			if (h->kind == 1) CHECK(ns(have[i]->value) == h->value, "single value of '%s' is '%s', was '%s'", h->name.c_str(), show(ns(have[i]->value)).c_str(), show(h->value).c_str());
			if (h->kind == 3) CHECK(have[i]->value_unsigned == h->num, "number of '%s' is %llu, was %llu", h->name.c_str(), have[i]->value_unsigned, h->num);
			if (h->kind == 4) {
				CHECK(ns(have[i]->value) == h->first, "first value of '%s' is '%s', was '%s'", h->name.c_str(), show(ns(have[i]->value)).c_str(), h->first.c_str());
				if (h->sub.size()) { const struct rrr_http_field *f = __rrr_http_part_header_field_subvalue_get(p, "content-type", h->sub.c_str()); CHECK(f && ns(f->value) == h->subval, "%s is '%s', was '%s'", h->sub.c_str(), f ? show(ns(f->value)).c_str() : "missing", h->subval.c_str()); }
			}
			if (h->kind == 2) { for (auto &l : h->list) { CHECK(i < have.size(), "element '%s' of '%s' is missing", l.c_str(), h->name.c_str()); const struct rrr_http_field *f = have[i]->fields.ptr_first; CHECK(f && ns(f->name) == l, "element of '%s' is '%s', was '%s'", h->name.c_str(), f ? show(ns(f->name)).c_str() : "missing", l.c_str()); i++; } } else i++;
		}
		CHECK(i == have.size(), "header '%s' occurs %zu times, not %zu", w.first.c_str(), have.size(), i);
	}
	CHECK(total == (size_t) p->headers.node_count, "there are %d headers, not %zu", p->headers.node_count, total);
}
static void check_body(struct rrr_http_part *p, const Msg &m, const S &in) {
	char *b = (char *) malloc(m.total ? m.total : 1); memcpy(b, in.data(), m.total); S got;   // not one byte more than the message
	CHECK(rrr_http_part_chunks_iterate(p, b, chunk_cb, &got) == 0 && got == m.body, "the body is %s, was %s", show(got).c_str(), show(m.body).c_str());
	char *merged = NULL; CHECK(rrr_http_part_chunks_merge(&merged, p, b) == 0, "chunks could not be merged"); CHECK((merged != NULL) == (m.mode == 2), "merged: %d", merged != NULL);
	const char *use = merged ? merged : b; got.clear();
	CHECK(p->data_length == m.body.size(), "the length of the body is %llu after merging, not %zu", (unsigned long long) p->data_length, m.body.size());
	CHECK(S(RRR_HTTP_PART_BODY_PTR(use, p), p->data_length) == m.body, "the body is another after merging");
	CHECK(rrr_http_part_chunks_iterate(p, use, chunk_cb, &got) == 0 && got == m.body, "the merged body is %s, was %s", show(got).c_str(), show(m.body).c_str());
	if (merged) CHECK(S(merged, m.top) == in.substr(0, m.top), "the header was changed by merging");
	rrr_free(merged); free(b);
}
static void parse(Src &s) {
	Msg m = gen(s); S in = m.wire; if (m.mode != 3 && s.flip()) in += s.flip() ? gen(s).wire : s.bytes_cheap(s.u(20));   // the next message is there already
	auto cuts = s.cuts(in.size(), s.chance(1, 4) ? 40 : 5); cuts.push_back(in.size());
	desc("%s body mode %d, %zu reads: %s", m.type == RRR_HTTP_PARSE_REQUEST ? "request" : "response", m.mode, cuts.size(), show(in, 300).c_str());
	Parse p(m.type); bool done = false;
	for (size_t n : cuts) {
		p.feed(in, n); size_t need = m.mode == 2 ? m.total : m.top;
		if (n < need || m.mode == 3) { CHECK(p.ret == RRR_HTTP_PARSE_INCOMPLETE, "%s after %zu of %zu bytes", rn(p.ret), n, need); CHECK((p.part->data_length_unknown != 0) == (m.mode == 3 && n >= m.top), "length unknown: %d", p.part->data_length_unknown); if (m.mode == 3 && n >= m.top) { done = true; break; } continue; }
		CHECK(p.ret == RRR_HTTP_PARSE_OK, "%s although all %zu bytes are there", rn(p.ret), n); CHECK(p.target == m.total, "the message has %zu bytes, not %llu", m.total, (unsigned long long) p.target); done = true; break;
	}
	CHECK(done, "not done");
	check_headers(p.part, m); if (m.mode != 3) check_body(p.part, m, in);
	if (cuts.size() > 1 && m.h.size() > 1) nontrivial();
	static const char *ml[] = {"no body", "length", "chunked", "until close"}; label(ml[m.mode]);
}
VP_TARGET_NOLEAK(parse, 300000, "requests and responses with known and unknown headers in any case, values of any characters, no body, a length, chunks or neither, in pieces; followed by more data; non-trivial: more than one read and header");

// Changed and hostile messages
static S summary(Parse &p) {
	S r = rn(p.ret); char b[64]; snprintf(b, sizeof b, " target=%llu", (unsigned long long) p.target); if (p.ret == RRR_HTTP_PARSE_OK) r += b;
	if (p.ret == RRR_HTTP_PARSE_OK) { r += " m=" + ns(p.part->request_method_str_nullsafe) + " u=" + ns(p.part->request_uri_nullsafe); for (struct rrr_http_header_field *f = p.part->headers.ptr_first; f; f = f->ptr_next) { r += " [" + ns(f->name) + "=" + ns(f->value) + "|" + ns(f->value_full); for (struct rrr_http_field *g = f->fields.ptr_first; g; g = g->ptr_next) r += " (" + ns(g->name) + "=" + ns(g->value) + ")"; r += "]"; } }
	return r;
}
static void hostile(Src &s) {
	Msg m = gen(s); S in = m.wire; int must = 0; const char *what = "";   // must 1: never accepted
	auto before_end = [&](const S &line) { in = in.substr(0, m.top - 2) + line + "\r\n" + in.substr(m.top - 2); };
	size_t kind = s.weighted({6, 2, 2, 2, 2, 2, 2, 2, 1, 1});
	switch (kind) {
		case 0: { what = "changed bytes"; size_t n = 1 + s.u(3); for (size_t i = 0; i < n; i++) { size_t at = s.u(in.size() - 1); switch (s.u(3)) { case 0: in[at] = (char) s.u(255); break; case 1: in.erase(at, 1 + s.u(3)); break; case 2: in.insert(at, S(1 + s.u(2), s.pick({"\r", "\n", " ", ",", ";", "=", ":", "\"", "0", "f"})[0])); break; default: in.insert(at, in.substr(s.u(in.size() - 1), 1 + s.u(20))); } if (in.empty()) in = "\r\n"; } break; }
		case 1: what = "length too large for 64 bits"; if (m.mode == 1 || m.mode == 2) discard(); before_end("Content-Length: " + S(s.pick({"18446744073709551616", "99999999999999999999", "18446744073709551617", "184467440737095516150", "20000000000000000000"}))); must = 1; break;
		case 2: what = "chunk size"; if (m.mode != 2) discard(); { S z = s.pick({"10000000000000000", "ffffffffffffffff0", "10000000000000005", "ffffffffffffffff", "fffffffffffffff0", "8000000000000000", "7fffffffffffffff", "ffffffffffffff00", "100000000"}); if (s.flip()) { char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long) (0 - (m.top + s.u(40)))); z = b; } in = in.substr(0, m.top) + (s.flip() ? "1\r\nx\r\n" : "") + z + "\r\n" + s.bytes_cheap(s.u(60)) + "\r\n0\r\n\r\n"; must = 1; } break;
		case 3: what = "both length and chunks"; if (m.mode != 1 && m.mode != 2) discard(); before_end(m.mode == 2 ? "Content-Length: " + std::to_string(s.u(400)) : "Transfer-Encoding: chunked"); must = 1; break;
		case 4: what = "two different lengths"; if (m.mode != 1) discard(); before_end("Content-Length: " + std::to_string(m.body.size() + 1 + s.u(50))); must = 1; break;
		case 5: what = "length not a number"; if (m.mode != 0 && m.mode != 3) discard(); before_end("Content-Length: " + S(s.pick({"-1", "+5", "0x10", "5a", "1 2", "5, 6", "a", "", "1.0", "5;6"}))); must = 1; break;
		case 6: what = "last chunk not followed by CRLF"; if (m.mode != 2) discard(); in = in.substr(0, in.size() - 2) + s.pick({"GE", "\n\n", "xx", "\r0", "X:"}) + " / HTTP/1.1\r\n\r\n"; must = 1; break;
		case 7: what = "chunk size not a number"; if (m.mode != 2) discard(); in = in.substr(0, m.top) + s.pick({"-1", "+1", "0x1", "g", " 1", "1 1", "", "1g"}) + "\r\nx\r\n0\r\n\r\n"; if (in.compare(m.top, 2, "\r\n")) must = 1; break;
		case 8: what = "start line"; in = S(s.pick({"GET / HTTP/1.2", "GET  HTTP/1.1", "/ HTTP/1.1", "GET / HTTP/1.1 x", "GET / HTTP/1.1\r", "GETTTTTTTTTTTT / HTTP/1.1", "GET /", "HTTP/1.1 20x OK then", "HTTP/1.1 1000 No", "HTTP/2.0 200 OK", "xHTTP/1.1 200 OK", "FOO / HTTP/1.1", " GET / HTTP/1.1", "HTTP/1.1  OK and some"})) + "\r\n\r\n"; must = 1; break;
		default: what = "line without colon"; before_end(s.pick({"nocolon", "no colon here", "x", "a=b;c"})); must = 1; break;
	}
	auto cuts = s.cuts(in.size(), 12); cuts.push_back(in.size());
	desc("%s: %s", what, show(in, 300).c_str());
	Parse one(m.type); one.feed(in, in.size());
	Parse more(m.type); for (size_t n : cuts) { more.feed(in, n); if (more.ret != RRR_HTTP_PARSE_INCOMPLETE) break; }
	S a = summary(one), b = summary(more);
	CHECK(a == b, "one read: %s / %zu reads: %s", show(a, 400).c_str(), cuts.size(), show(b, 400).c_str());
	if (must) CHECK(one.ret != RRR_HTTP_PARSE_OK, "%s: the message was accepted with %llu bytes", what, (unsigned long long) one.target);
	if (kind != 0 && kind != 2 && kind != 7 && must) CHECK(one.ret != RRR_HTTP_PARSE_INCOMPLETE, "%s: the message was not refused", what);
	if (one.ret == RRR_HTTP_PARSE_OK) { CHECK(RRR_HTTP_PART_TOP_LENGTH(one.part) <= in.size() && one.target >= RRR_HTTP_PART_TOP_LENGTH(one.part), "top %llu of %zu, target %llu", (unsigned long long) RRR_HTTP_PART_TOP_LENGTH(one.part), in.size(), (unsigned long long) one.target);
		if (one.target <= in.size()) { S got; char *x = (char *) malloc(one.target); memcpy(x, in.data(), one.target); rrr_http_part_chunks_iterate(one.part, x, chunk_cb, &got); char *mg = NULL; if (rrr_http_part_chunks_merge(&mg, one.part, x) == 0) { S g2; rrr_http_part_chunks_iterate(one.part, mg ? mg : x, chunk_cb, &g2); CHECK(g2 == got, "the body is another after merging"); } rrr_free(mg); free(x); } }
	label(what); label(rn(one.ret)); nontrivial();
}
VP_TARGET_NOLEAK(hostile, 400000, "messages with changed bytes, and with lengths, chunk sizes, start lines and header lines which are ambiguous or no such; non-trivial: all");

static void init() { vp_lib_init(); }
VP_MAIN(init)
