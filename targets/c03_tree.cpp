// C03: array definitions take input apart as documented, for every definition and every cut of the input
#include "model_cond.hpp"
extern "C" {
#include "lib/array.h"
#include "lib/array_tree.h"
#include "lib/type.h"
#include "lib/parse.h"
#include "lib/fixed_point.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
}
#include <memory>
#include <math.h>
VP_LOG_PREFIX
using namespace vp;

struct Def { std::string type; uint32_t len = 0, count = 1; std::string lref, cref, tag; int sign = 0; /* 0 none 1 u 2 s */ };
struct Tree;
struct Branch { CX cond; std::shared_ptr<Tree> body; };
struct Node { int kind; /* 0 value 1 if 2 rewind */ Def d; std::vector<Branch> br; std::shared_ptr<Tree> els; uint32_t rewind = 0; };
struct Tree { std::vector<Node> n; };
struct Val { int type; uint8_t flags; std::string tag, data; size_t count, used; };
enum { OK, INC, SOFT, ANY };
struct Run {
	std::string buf; size_t pos = 0; std::vector<Val> v; bool inc_or_soft = false, fixp_tol = false, any = false;
	Src *gen = NULL;                   // when set, missing input is made up
	int steps = 0;
};
static bool is_sep(unsigned char c) { return c == '\n' || c == '\r' || c == '\t' || (c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126) || c == 0 || c == 3 || c == 4; }
static bool is_end(unsigned char c) { return c == '\n' || c == '\r' || c == '\t' || c == 0 || c == 3 || c == 4; }
static std::string le64(uint64_t x) { return std::string((char *) &x, 8); }
static uint64_t to64(const Val &v) {
	if (v.type == RRR_TYPE_H) { uint64_t x; memcpy(&x, v.data.data(), 8); return x; }
	if (v.type == RRR_TYPE_VAIN) return 0;
	if (v.type == RRR_TYPE_HDLC) return 1;
	size_t n = std::min<size_t>(8, v.data.size()); return rd_be((const uint8_t *) v.data.data() + v.data.size() - n, (int) n);
}
static const Val *find(const Run &r, const std::string &tag) { for (size_t i = r.v.size(); i; i--) if (r.v[i - 1].tag == tag) return &r.v[i - 1]; return NULL; }
static CVal cond_tag(const Run &r, const std::string &tag) { const Val *v = find(r, tag); if (!v) return {0, false, true, false}; return {to64(*v), (v->flags & 1) != 0, false, false}; }

static std::string gen_message(Src &s) {
	struct rrr_msg_msg *m = NULL; std::string t = s.word(0, 6), d = s.bytes(s.len(20));
	CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, s.u64(), t.data(), (rrr_u16) t.size(), d.data(), (rrr_u32) d.size()) == 0, "new message");
	size_t n = MSG_TOTAL_SIZE(m); rrr_msg_msg_prepare_for_network(m); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) m);
	std::string r((char *) m, n); rrr_free(m); return r;
}
static std::string gen_for(Src &s, const std::string &t, uint64_t total) {
	if (total > 5000) total = s.u(5000);
	if (t == "be" || t == "le" || t == "h" || t == "blob") return s.chance(1, 3) && total ? std::string((size_t) total - 1, '\0') + (char) s.n(6) : s.bytes((size_t) total);
	if (t == "sep") return s.chars((size_t) total, "\n\r\t,;./:@[`{~\x03\x04");
	if (t == "stx") return s.chars((size_t) total, "\x01\x02");
	std::string end(1, "\n\t,x;"[s.u(4)]);
	if (t == "ustr") return s.pick({"", " ", "\t"}) + (s.chance(1, 4) ? std::to_string(s.u64()) : std::to_string(s.n(300))) + end;
	if (t == "istr") return s.pick({"", " ", "\t"}) + (s.chance(1, 4) ? std::to_string(s.i64()) : std::to_string((int64_t) s.n(300) - 20)) + end;
	if (t == "fixp") return s.pick({"", "10#", "16#"}) + std::string(s.pick({"", "-", "+"})) + s.chars(1 + s.len(6), "0123456789") + (s.flip() ? "." + s.chars(s.len(10), "0123456789") : "") + s.pick({"\n", "x", " ", ","});
	if (t == "msg") return gen_message(s);
	if (t == "str") return "\"" + s.chars(s.len(12), "abc\\\\ \n") + (s.chance(1, 3) ? "\\\"z" : "") + "\"";
	if (t == "nsep") return s.chars(1 + s.len(10), "ab,1 .") + std::string(1, "\n\r\t\0\x03\x04"[s.u(5)]);
	if (t == "hdlc") { std::string r = s.chars(s.len(3), "ab\n") + "~"; for (size_t k = 1 + s.len(s.chance(1, 30) ? 4200 : 10); k; k--) r += s.chance(1, 8) ? std::string("}") + (char) s.u(255) : s.chars(1, "ab\x01\xff"); return r + "~"; }
	return "";
}
// value: the numbers of a text which is complete in the buffer
static int import(Run &r, const Def &d) {
	std::string t = d.type; Val v; v.tag = d.tag; v.flags = d.sign == 2; v.count = 1;
	bool sized = t == "be" || t == "le" || t == "h" || t == "blob" || t == "sep" || t == "stx";
	uint64_t len = d.len, count = d.count;
	for (int i = 0; i < 2; i++) { const std::string &ref = i ? d.cref : d.lref; if (ref.empty()) continue;
		const Val *f = find(r, ref); if (!f) return SOFT; uint64_t x = to64(*f); if (x == 0 || x > 0xffffffff) return SOFT; (i ? count : len) = x; }
	if (sized) {
		uint64_t max = t == "blob" ? 1024 : t == "sep" || t == "stx" ? 64 : 8;
		if (len == 0 || len > max) return SOFT;
		if (count * std::max<uint64_t>(len, 8) > (1u << 29)) { r.inc_or_soft = true; return INC; }
	}
	uint64_t total = len * count;
	if (r.gen && r.pos >= r.buf.size()) r.buf += gen_for(*r.gen, t, total);
	if (r.gen && sized && r.buf.size() - r.pos < total && total < 5000) r.buf += gen_for(*r.gen, t, total - (r.buf.size() - r.pos));
	const unsigned char *p = (const unsigned char *) r.buf.data() + r.pos; size_t n = r.buf.size() - r.pos;
	if (sized) {
		if (n < total) return INC;
		v.count = (size_t) count; v.used = (size_t) total;
		if (t == "sep" || t == "stx") for (size_t i = 0; i < total; i++) if (t == "sep" ? !is_sep(p[i]) : p[i] != 1 && p[i] != 2) return SOFT;
		if (t == "blob" || t == "sep" || t == "stx") { v.type = t == "blob" ? RRR_TYPE_BLOB : t == "sep" ? RRR_TYPE_SEP : RRR_TYPE_STX; v.data.assign((const char *) p, v.used); }
		else { v.type = RRR_TYPE_H; for (size_t i = 0; i < count; i++) { uint64_t x = 0; for (size_t k = 0; k < len; k++) { uint8_t b = p[i * len + (t == "be" ? k : len - 1 - k)]; if (k == 0 && v.flags && b & 0x80) x = ~0ull; x = x << 8 | b; } v.data += le64(x); } }
	}
	else if (t == "ustr" || t == "istr") {
		bool sg = t == "istr"; size_t i = 0; while (i < n && (p[i] == ' ' || p[i] == '\t')) i++;
		size_t b = i; while (i < n && (isdigit(p[i]) || p[i] == '+' || (sg && p[i] == '-'))) { if (i - b >= 63) return SOFT; i++; }
		if (i == n) return INC;
		std::string x((const char *) p + b, i - b); size_t q = !x.empty() && (x[0] == '+' || x[0] == '-');
		if (x.size() == q || x.find_first_not_of("0123456789", q) != std::string::npos) return SOFT;
		unsigned __int128 m = 0; for (size_t k = q; k < x.size(); k++) { m = m * 10 + (unsigned) (x[k] - '0'); if (m >> 64) m = ~0ull + (unsigned __int128) 1; }
		uint64_t w = (uint64_t) m; bool neg = x[0] == '-';
		if (!sg) w = m > UINT64_MAX ? UINT64_MAX : w;
		else if (neg) w = m > (1ull << 63) ? 1ull << 63 : 0 - w;
		else w = m > INT64_MAX ? INT64_MAX : w;
		v.type = RRR_TYPE_H; v.flags = sg; v.data = le64(w); v.used = i;
	}
	else if (t == "fixp") {
		if (!n) return INC;
		size_t i = 0; int base = 10; if (n >= 3 && (!memcmp(p, "16#", 3) || !memcmp(p, "10#", 3))) { base = p[1] == '6' ? 16 : 10; i = 3; }
		if (i >= n) return INC;
		bool neg = p[i] == '-'; if (p[i] == '-' || p[i] == '+') i++;
		if (i >= n) return INC;
		size_t b = i, dot = 0; bool has = false; long double x = 0, f = 1;
		for (; i < n; i++) {
			if (p[i] == '.') { if (i == b || has) return SOFT; has = true; dot = i; continue; }
			int c = isdigit(p[i]) ? p[i] - '0' : base == 16 && isxdigit(p[i]) ? tolower(p[i]) - 'a' + 10 : -1;
			if (c < 0) break;
			if (has) { f /= base; x += c * f; } else x = x * base + c;
		}
		(void) dot; if (i == b) return SOFT;
		if (i == n) return INC;
		if (x > 549755813888.0L || (x == 549755813888.0L && !neg)) return SOFT;
		int64_t w = (int64_t) ((neg ? -x : x) * 16777216.0L);
		v.type = RRR_TYPE_FIXP; v.data = le64((uint64_t) w); v.used = i;
	}
	else if (t == "msg") {
		if (n < sizeof(struct rrr_msg_msg) - 1) return INC;
		std::vector<char> c(p, p + n); struct rrr_msg *m = (struct rrr_msg *) c.data(); rrr_length size = 0;
		if (rrr_msg_get_target_size_and_check_checksum(&size, m, (rrr_length) n)) return SOFT;
		if (size > n) return INC;
		c.resize(size); c.shrink_to_fit(); m = (struct rrr_msg *) c.data();
		if (rrr_msg_head_to_host_and_verify(m, size) || rrr_msg_check_data_checksum_and_length(m, size) || rrr_msg_msg_to_host_and_verify((struct rrr_msg_msg *) m, size)) return SOFT;
		v.type = RRR_TYPE_MSG; v.data.assign(c.data(), size); v.used = size;
	}
	else if (t == "str") {
		if (!n) return INC;
		if (p[0] != '"') return SOFT;
		size_t i = 1; for (; i < n && p[i] != '"'; i++) { if (p[i] == '\\') { i++; if (i == n) break; } v.data += (char) p[i]; }
		if (i >= n) return INC;
		v.type = RRR_TYPE_STR; v.used = i + 1;
	}
	else if (t == "nsep") {
		size_t i = 0; while (i < n && !is_end(p[i])) i++;
		if (i == n) return INC;
		if (!i) return SOFT;
		v.type = RRR_TYPE_NSEP; v.data.assign((const char *) p, i); v.used = i;
	}
	else if (t == "hdlc") {
		size_t i = 0; while (i < n && p[i] != 0x7e) i++;
		i++; bool done = false;
		for (; i < n && !done; i++) {
			unsigned char c = p[i];
			if (c == 0x7e) { if (!v.data.empty()) done = true; continue; }
			if (c == 0x7d) { if (++i == n) break; c = p[i] ^ 0x20; }
			if (v.data.size() == 4095) return SOFT;
			v.data += (char) c;
		}
		if (!done) return INC;
		v.type = RRR_TYPE_HDLC; v.used = i;
	}
	else if (t == "err") return SOFT;
	else if (t == "vain") { v.type = RRR_TYPE_VAIN; v.used = 0; }
	else FAIL("type %s", t.c_str());
	r.pos += v.used; r.v.push_back(v); return OK;
}
static int run(Run &r, const Tree &t) {
	for (auto &n : t.n) {
		if (n.kind == 0) { int e = import(r, n.d); if (e) return e; }
		else if (n.kind == 2) { if (n.rewind > r.v.size()) return SOFT; for (uint32_t i = 0; i < n.rewind; i++) { r.pos -= r.v.back().used; r.v.pop_back(); } }
		else {
			bool taken = false;
			for (auto &b : n.br) {
				CVal c = c_eval(b.cond, [&](const std::string &q) { return cond_tag(r, q); });
				if (c.any) { r.any = true; return SOFT; }
				if (c.err) return SOFT;
				if (c.v) { taken = true; int e = run(r, *b.body); if (e) return e; break; }
			}
			if (!taken && n.els) { int e = run(r, *n.els); if (e) return e; }
		}
	}
	return OK;
}

struct Gen { std::vector<std::string> tags, reftags; int budget = 14; };
static Def gen_def(Src &s, Gen &g) {
	static const std::vector<std::string> T = {"be", "le", "h", "blob", "sep", "stx", "ustr", "istr", "fixp", "msg", "str", "nsep", "hdlc", "vain", "err"};
	Def d; d.type = T[s.weighted({8, 6, 4, 6, 4, 2, 5, 4, 3, 2, 4, 3, 2, 2, 1})]; bool sized = d.type.size() == 1 || d.type == "be" || d.type == "le" || d.type == "blob" || d.type == "sep" || d.type == "stx";
	if (sized) {
		uint32_t max = d.type == "blob" ? 1024 : d.type == "sep" || d.type == "stx" ? 64 : 8;
		d.len = 1 + (uint32_t) (max > 8 ? (s.chance(1, 10) ? s.u(max - 1) : s.len(5)) : s.u(7));
		if (!g.reftags.empty() && s.chance(1, 5)) d.lref = s.pick(g.reftags);
		if (s.chance(1, 5)) { d.count = 1 + (uint32_t) s.len(6); if (!g.reftags.empty() && s.flip()) d.cref = s.pick(g.reftags); }
		if (max == 8) d.sign = (int) s.u(2);
		if (max == 8 && d.lref.empty() && s.flip()) { d.len = s.flip() ? 1 : 2; }
	}
	if (s.chance(3, 5)) { d.tag = s.chance(1, 3) && !g.tags.empty() ? s.pick(g.tags) : s.word(1, s.chance(1, 20) ? 15 : 3, "abA_1"); g.tags.push_back(d.tag); if (d.type != "fixp" && d.type != "msg" && d.type != "hdlc") g.reftags.push_back(d.tag); }
	if (std::find(g.tags.begin(), g.tags.end(), d.tag) != g.tags.end() && (d.type == "fixp" || d.type == "msg")) d.tag = "";
	return d;
}
static Tree gen_tree(Src &s, Gen &g, int depth) {
	Tree t; size_t n = s.len(depth == 3 ? 8 : 3); if (!n) n = 1;
	for (size_t i = 0; i < n && g.budget > 0; i++) {
		g.budget--; Node x;
		x.kind = depth && s.chance(1, 5) ? 1 : s.chance(1, 10) ? 2 : 0;
		if (x.kind == 0) x.d = gen_def(s, g);
		else if (x.kind == 2) x.rewind = 1 + (uint32_t) s.len(2);
		else {
			size_t b = 1 + s.len(2); std::vector<std::string> ct; for (auto &q : g.reftags) ct.push_back(q);
			for (size_t k = 0; k < b; k++) { Branch br; br.cond = c_gen(s, ct, (int) s.u(2)); br.body = std::make_shared<Tree>(gen_tree(s, g, depth - 1)); x.br.push_back(br); }
			if (s.flip()) x.els = std::make_shared<Tree>(gen_tree(s, g, depth - 1));
		}
		t.n.push_back(x);
	}
	if (t.n.empty()) { Node x; x.kind = 0; x.d.type = "be"; x.d.len = 1; t.n.push_back(x); }
	return t;
}
static std::string ws(Src &s, bool need = false) { static const char *const w[] = {" ", "\n", "\t", "  ", " \r\n "}; return !need && s.flip() ? "" : w[s.u(4)]; }
static std::string text(Src &s, const Tree &t) {
	std::string r = ws(s);
	for (size_t i = 0; i < t.n.size(); i++) {
		const Node &n = t.n[i]; bool next_value = i + 1 < t.n.size() && t.n[i + 1].kind == 0;
		if (n.kind == 0) {
			const Def &d = n.d; r += d.type;
			if (d.len) { r += d.lref.empty() ? std::to_string(d.len) : "{" + d.lref + "}"; if (d.sign) r += d.sign == 2 ? "sS"[s.u(1)] : "uU"[s.u(1)]; if (!d.cref.empty()) r += "@{" + d.cref + "}"; else if (d.count > 1 || s.chance(1, 10)) r += "@" + std::to_string(d.count); }
			if (!d.tag.empty()) r += "#" + d.tag;
			if (i + 1 < t.n.size()) r += next_value || s.flip() ? ws(s) + "," + ws(s) : ws(s, true); else r += ws(s);
		}
		else if (n.kind == 2) r += "REWIND" + ws(s) + std::to_string(n.rewind) + ws(s, true);
		else {
			for (size_t k = 0; k < n.br.size(); k++) r += (k ? "ELSIF" : "IF") + ws(s) + "(" + c_sp(s) + c_text(s, n.br[k].cond) + c_sp(s) + ")" + ws(s) + text(s, *n.br[k].body) + ws(s);
			if (n.els) r += "ELSE" + ws(s, true) + text(s, *n.els) + ws(s);
		}
	}
	return r + ";";
}
static bool empty_tree(const Tree &t) { for (auto &n : t.n) { if (n.kind == 1) { for (auto &b : n.br) if (b.body->n.empty() || empty_tree(*b.body)) return true; if (n.els && (n.els->n.empty() || empty_tree(*n.els))) return true; } } return t.n.empty(); }

static int take_cb(struct rrr_array *a, void *arg) {
	std::vector<Val> *o = (std::vector<Val> *) arg;
	for (struct rrr_type_value *v = a->ptr_first; v; v = v->ptr_next) {
		Val w; w.type = v->definition->type; w.flags = v->flags; w.tag = v->tag ? std::string(v->tag, v->tag_length) : ""; w.count = v->element_count; w.data = v->total_stored_length ? std::string(v->data, v->total_stored_length) : ""; w.used = 0;
		o->push_back(w);
	}
	return 0;
}
static void compare(const struct rrr_array_tree *tree, const Tree &ast, const std::string &in) {
	Run r; r.buf = in; int want = run(r, ast);
	std::vector<char> buf(in.begin(), in.end()); rrr_length parsed = 0; std::vector<Val> got;
	int e = rrr_array_tree_import_from_buffer(&parsed, buf.data(), (rrr_length) buf.size(), tree, take_cb, &got);
	if (r.any && want == SOFT) { label("undefined shift"); return; }
	int g = e == RRR_ARRAY_TREE_OK ? OK : e == RRR_ARRAY_TREE_PARSE_INCOMPLETE ? INC : e == RRR_ARRAY_TREE_SOFT_ERROR ? SOFT : 99;
	if (r.inc_or_soft && want == INC) { CHECK(g == INC || g == SOFT, "input %s: return %d, want incomplete or error", show(in).c_str(), e); return; }
	label(want == OK ? "values" : want == INC ? "incomplete" : "rejected");
	static const char *const N[] = {"values", "incomplete", "error"};
	CHECK(g == want, "input %s: return %d, want %s (after %zu values)", show(in).c_str(), e, N[want], r.v.size());
	if (want != OK) return;
	CHECK(parsed == r.pos, "input %s: %u bytes used, want %zu", show(in).c_str(), parsed, r.pos);
	CHECK(got.size() == r.v.size(), "input %s: %zu values, want %zu", show(in).c_str(), got.size(), r.v.size());
	for (size_t i = 0; i < got.size(); i++) {
		const Val &a = got[i], &b = r.v[i]; bool same = a.type == b.type && a.flags == b.flags && a.tag == b.tag && a.count == b.count;
		if (b.type == RRR_TYPE_FIXP && a.data.size() == 8) { int64_t x, y; memcpy(&x, a.data.data(), 8); memcpy(&y, b.data.data(), 8); same &= llabs(x - y) <= 2; }
		else same &= a.data == b.data;
		CHECK(same, "input %s: value %zu is type %d flags %d tag '%s' x%zu %s, want type %d flags %d tag '%s' x%zu %s", show(in).c_str(), i, a.type, a.flags, a.tag.c_str(), a.count, show(a.data).c_str(), b.type, b.flags, b.tag.c_str(), b.count, show(b.data).c_str());
	}
	if (r.v.size() > 1) nontrivial();
}

static void import_tree(Src &s) {
	Gen g; Tree ast = gen_tree(s, g, 3); if (empty_tree(ast)) { Node x; x.kind = 0; x.d.type = "be"; x.d.len = 1; ast.n = {x}; }
	std::string t = text(s, ast); if (s.chance(1, 8)) t += s.pick({";", " ;", " "});
	desc("%s", show(t, 500).c_str());
	std::vector<char> def(t.begin(), t.end()); struct rrr_array_tree *tree = NULL, *clone = NULL;
	int e = rrr_array_tree_interpret_raw(&tree, def.data(), (rrr_length) def.size(), "x");
	CHECK(e == 0, "definition rejected with %d", e);
	if (s.flip()) { CHECK(rrr_array_tree_clone_without_data(&clone, tree) == 0, "clone"); rrr_array_tree_destroy(tree); tree = clone; label("clone of the tree"); }
	Run r; r.gen = &s; (void) run(r, ast); std::string in = r.buf;
	desc(" with %s", show(in, 300).c_str());
	if (s.chance(1, 4)) in += s.bytes(s.len(6));
	if (s.chance(1, 4) && !in.empty()) in[s.u(in.size() - 1)] = (char) s.n(255);
	compare(tree, ast, in);
	for (size_t k = s.u(3); k; k--) compare(tree, ast, in.substr(0, s.u(in.size())));
	rrr_array_tree_destroy(tree);
}
VP_TARGET_NOLEAK(import_tree, 150000, "definitions of up to 14 values, conditions, branches and rewinds, rendered with random spacing, with input made for them, damaged, cut short or with extra bytes; non-trivial: more than one value came out");

// Sequences of tokens, mostly not definitions
static void malformed(Src &s) {
	static const std::vector<std::string> T = {"be1", "be4", "le2", "h8", "blob", "blob8", "blob2000", "sep1", "ustr", "fixp", "str", "nsep", "msg", "err", "vain", "hdlc", "#a", "#", "@", "@2", "@0", "@99999999999", "@{a}", "{a}", "be{a}", "s", "u", ",", ";", " ", "\n", "IF", "ELSIF", "ELSE", "REWIND", "REWIND1", "REWIND4294967296", "(1)", "({a} == 1)", "(", ")", "-1", "0", "99999999999999999999", "\x01", "\xff", "xyz"};
	std::string t; size_t n = 1 + s.len(14);
	for (size_t i = 0; i < n; i++) { t += s.pick(T); if (s.chance(1, 3)) t += s.pick({" ", ",", "; "}); }
	if (s.chance(2, 3)) t += ";";
	if (s.chance(1, 3)) { Gen g; Tree ast = gen_tree(s, g, 2); t = text(s, ast); for (size_t k = 1 + s.u(2); k; k--) { size_t p = s.u(t.size()); switch (s.u(2)) { case 0: t.insert(p, s.pick(T)); break; case 1: if (p < t.size()) t.erase(p, 1 + s.u(3)); break; case 2: if (p < t.size()) t[p] = (char) s.n(255); } } }
	if (s.chance(1, 10)) t = t.substr(0, s.u(t.size()));
	desc("%s", show(t).c_str());
	std::vector<char> def(t.begin(), t.end()); struct rrr_array_tree *tree = NULL, *clone = NULL;
	int e = rrr_array_tree_interpret_raw(&tree, def.data(), (rrr_length) def.size(), NULL);
	label(e ? "rejected" : "accepted");
	if (t.find(';') == std::string::npos) CHECK(e, "a definition without a ; was accepted");
	if (!e) {
		nontrivial(); CHECK(rrr_array_tree_clone_without_data(&clone, tree) == 0, "clone"); rrr_array_tree_dump(clone);
		std::string in = s.bytes(s.len(40)); std::vector<char> buf(in.begin(), in.end()); rrr_length p1 = 0, p2 = 0; std::vector<Val> g1, g2;
		int r1 = rrr_array_tree_import_from_buffer(&p1, buf.data(), (rrr_length) buf.size(), tree, take_cb, &g1), r2 = rrr_array_tree_import_from_buffer(&p2, buf.data(), (rrr_length) buf.size(), clone, take_cb, &g2);
		CHECK(r1 == r2 && p1 == p2 && g1.size() == g2.size() && p1 <= in.size(), "copy of the definition gives %d with %u bytes, original %d with %u bytes", r2, p2, r1, p1);
		rrr_array_tree_destroy(tree); rrr_array_tree_destroy(clone);
	}
}
VP_TARGET_NOLEAK(malformed, 80000, "sequences of tokens and definitions with damage: rejected, or safe to print, copy and import with; non-trivial: accepted");

static void init() { vp_lib_init(); }
VP_MAIN(init)
