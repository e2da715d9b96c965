// C02: array messages carry their values; lookups and exports agree with a plain list
#include "common.hpp"
extern "C" {
#include "lib/array.h"
#include "lib/type.h"
#include "lib/map.h"
#include "lib/messages/msg.h"
#include "lib/messages/msg_msg.h"
#include "lib/helpers/nullsafe_str.h"
}
VP_LOG_PREFIX
using namespace vp;

struct V { int type; uint8_t flags; std::string tag; std::vector<std::string> el; size_t n() const { return el.size(); }
	std::string data() const { std::string r; for (auto &e : el) r += e; return r; } };
typedef std::vector<V> Model;

static std::string i64s(uint64_t v) { return std::string((char *) &v, 8); }
static V take(const struct rrr_type_value *v) {
	V r; r.type = v->definition->type; r.flags = v->flags; r.tag = v->tag ? std::string(v->tag, v->tag_length) : "";
	CHECK(v->tag || v->tag_length == 0, "tag length without tag");
	CHECK(v->element_count > 0 || v->total_stored_length == 0, "value without elements holds %u bytes", v->total_stored_length);
	size_t e = v->element_count ? v->total_stored_length / v->element_count : 0;
	if (r.type == RRR_TYPE_MSG) { r.el.push_back(std::string(v->data, v->total_stored_length)); return r; }
	CHECK(e * v->element_count == v->total_stored_length, "%u bytes in %u elements", v->total_stored_length, v->element_count);
	for (size_t i = 0; i < v->element_count; i++) r.el.push_back(e ? std::string(v->data + i * e, e) : "");
	return r;
}
static std::string str(const V &v) { return "type " + std::to_string(v.type) + " flags " + std::to_string(v.flags) + " tag '" + v.tag + "' x" + std::to_string(v.n()) + " " + show(v.data(), 60); }
static void same(const V &a, const V &b, const char *what) {
	CHECK(a.type == b.type && a.flags == b.flags && a.tag == b.tag && a.el == b.el, "%s: got %s, want %s", what, str(a).c_str(), str(b).c_str());
}
static void same(const struct rrr_array *a, const Model &m, const char *what) {
	CHECK((size_t) rrr_array_count(a) == m.size(), "%s: %d values, want %zu", what, rrr_array_count(a), m.size());
	size_t i = 0;
	for (struct rrr_type_value *v = a->ptr_first, *prev = NULL; v; prev = v, v = v->ptr_next, i++) { CHECK(v->ptr_prev == prev, "%s: links", what); same(take(v), m[i], what); }
	CHECK(i == m.size(), "%s: %zu values linked", what, i);
}
static bool tag_is(const V &v, const std::string &t) { return v.tag == t; }

static std::string gen_tag(Src &s) { return s.chance(1, 20) ? std::string(s.n(300), 'x') : s.chance(1, 5) ? "" : s.word(1, 3, "abA_"); }
// A nested message, in host order
static std::string gen_nested(Src &s) {
	struct rrr_msg_msg *m = NULL; std::string t = s.word(0, 6), d = s.bytes(s.len(20));
	CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, s.u64(), t.data(), (rrr_u16) t.size(), d.data(), (rrr_u32) d.size()) == 0, "new message");
	std::string r((char *) m, MSG_TOTAL_SIZE(m)); rrr_free(m); return r;
}
// Add one value both to the array and to the model
static void add(Src &s, struct rrr_array *a, Model &m) {
	V v; v.flags = 0; v.tag = gen_tag(s); const char *t = v.tag.empty() && s.flip() ? NULL : v.tag.c_str();
	switch (s.weighted({3, 3, 2, 4, 3, 2, 3, 3, 2, 1, 2})) {
		case 0: { uint64_t x = s.u64(); v.type = RRR_TYPE_H; v.el = {i64s(x)}; CHECK(rrr_array_push_value_u64_with_tag(a, t, x) == 0, "push"); break; }
		case 1: { int64_t x = s.i64(); v.type = RRR_TYPE_H; v.flags = 1; v.el = {i64s((uint64_t) x)}; CHECK(rrr_array_push_value_i64_with_tag(a, t, x) == 0, "push"); break; }
		case 2: { int64_t x = s.i64(); v.type = RRR_TYPE_FIXP; v.el = {i64s((uint64_t) x)}; CHECK(rrr_array_push_value_fixp_with_tag(a, t, x) == 0, "push"); break; }
		case 3: { std::string x = s.bytes(s.chance(1, 10) ? s.n(3000) % 3000 : s.len(30)); v.type = RRR_TYPE_STR; v.el = {x}; v.flags = s.chance(1, 4);
			if (v.flags || s.flip()) CHECK(rrr_array_push_value_str_with_tag_with_size_with_flags(a, t, x.data(), (rrr_length) x.size(), v.flags) == 0, "push");
			else CHECK(rrr_array_push_value_str_with_tag_with_size(a, t, x.data(), (rrr_length) x.size()) == 0, "push");
			break; }
		case 4: { std::string x = s.word(0, 20, "ab\"\\c 1"); v.type = RRR_TYPE_STR; v.el = {x};
			if (s.flip()) CHECK(rrr_array_push_value_str_with_tag(a, t, x.c_str()) == 0, "push");
			else { struct rrr_nullsafe_str *n = NULL; CHECK(rrr_nullsafe_str_new_or_replace_raw(&n, x.data(), x.size()) == 0, "nullsafe"); CHECK(rrr_array_push_value_str_with_tag_nullsafe(a, t, n) == 0, "push"); rrr_nullsafe_str_destroy_if_not_null(&n); }
			break; }
		case 5: { v.type = RRR_TYPE_VAIN; v.el = {""}; CHECK(rrr_array_push_value_vain_with_tag(a, t) == 0, "push"); break; }
		case 6: { std::string x = s.bytes(1 + s.len(40)); v.type = RRR_TYPE_BLOB; v.el = {x};
			if (s.flip()) CHECK(rrr_array_push_value_blob_with_tag_with_size(a, t, x.data(), (rrr_length) x.size()) == 0, "push");
			else { struct rrr_nullsafe_str *n = NULL; CHECK(rrr_nullsafe_str_new_or_replace_raw(&n, x.data(), x.size()) == 0, "nullsafe"); CHECK(rrr_array_push_value_blob_with_tag_nullsafe(a, t, n) == 0, "push"); rrr_nullsafe_str_destroy_if_not_null(&n); }
			break; }
		case 7: { size_t n = 1 + s.len(12); v.type = RRR_TYPE_H; v.flags = (uint8_t) s.u(1); std::string x; for (size_t i = 0; i < n; i++) { v.el.push_back(i64s(s.u64())); x += v.el.back(); }
			struct rrr_type_value *n_ = NULL; CHECK(rrr_type_new_h(&n_, (rrr_length) v.tag.size(), v.tag.c_str(), (rrr_length) n) == 0, "new");
			n_->flags = v.flags; memcpy(n_->data, x.data(), x.size());
			RRR_LL_APPEND(a, n_); break; }
		case 8: case 10: {
			// several elements of the same length
			static const struct rrr_type_definition *D[] = {&rrr_type_definition_blob, &rrr_type_definition_sep, &rrr_type_definition_stx};
			int k = (int) s.u(2); size_t n = 1 + s.len(8), l = 1 + s.len(6); std::string x;
			for (size_t i = 0; i < n; i++) { v.el.push_back(k == 0 ? s.bytes(l) : k == 1 ? s.chars(l, "\n\t,;.\"|") : s.chars(l, "\x01\x02")); x += v.el.back(); }
			v.type = D[k]->type; struct rrr_type_value *n_ = NULL;
			std::vector<char> xb(x.begin(), x.end());
			CHECK(rrr_type_value_allocate_and_import_raw(&n_, D[k], xb.data(), xb.data() + xb.size(), (rrr_length) v.tag.size(), v.tag.c_str(), (rrr_length) l, (rrr_length) n) == 0, "import");
			RRR_LL_APPEND(a, n_); break; }
		case 9: { std::string x = gen_nested(s); v.type = RRR_TYPE_MSG; v.el = {x}; struct rrr_type_value *n_ = NULL;
			CHECK(rrr_type_value_new(&n_, &rrr_type_definition_msg, 0, (rrr_length) v.tag.size(), v.tag.c_str(), 0, NULL, 1, NULL, (rrr_length) x.size()) == 0, "new");
			memcpy(n_->data, x.data(), x.size()); RRR_LL_APPEND(a, n_); break; }
	}
	desc("%s; ", str(v).c_str());
	m.push_back(v);
}
static Model sub(const Model &m, const std::vector<std::string> *tags) {
	Model r; for (auto &v : m) { bool f = !tags; if (tags) for (auto &t : *tags) f |= tag_is(v, t); if (f) r.push_back(v); } return r;
}
static std::string exported(const V &v) {
	std::string r;
	if (v.type == RRR_TYPE_H) { for (auto &e : v.el) for (int i = 7; i >= 0; i--) r += e[(size_t) i]; return r; }
	if (v.type == RRR_TYPE_STR) { r = "\""; for (char c : v.data()) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
	return v.data();
}
struct Split { const Model *m; std::vector<V> got; };
static int split_cb(const struct rrr_type_value *orig, const struct rrr_array *vals, void *arg) {
	Split *p = (Split *) arg; V o = take(orig); p->got.push_back(o);
	if (o.type == RRR_TYPE_MSG) return 0;
	CHECK((size_t) rrr_array_count(vals) == o.n(), "split into %d parts, the value has %zu elements", rrr_array_count(vals), o.n());
	size_t i = 0;
	for (struct rrr_type_value *v = vals->ptr_first; v; v = v->ptr_next, i++) { V w = take(v); V e = o; e.tag = ""; e.el = {o.el[i]}; same(w, e, "element"); }
	return 0;
}
static int values_cb(const struct rrr_type_value *v, void *arg) { ((std::vector<V> *) arg)->push_back(take(v)); return 0; }

static void lookups(Src &s, struct rrr_array *a, const struct rrr_msg_msg *msg, const Model &m) {
	std::string t = m.empty() || s.chance(1, 4) ? gen_tag(s) : m[s.u(m.size() - 1)].tag;
	const V *f = NULL; for (auto &v : m) if (tag_is(v, t)) { f = &v; break; }
	const char *tc = t.c_str();
	CHECK(rrr_array_has_tag(a, tc) == !!f, "has_tag('%s')", tc);
	struct rrr_type_value *g = rrr_array_value_get_by_tag(a, tc);
	CHECK(!!g == !!f && rrr_array_value_get_by_tag_const(a, tc) == g, "get_by_tag('%s')", tc);
	if (g) same(take(g), *f, "get by tag");
	if (msg) {
		CHECK(!!rrr_array_message_has_tag(msg, tc) == !!f, "message has tag '%s'", tc);
		CHECK(rrr_array_message_clone_value_by_tag(&g, msg, tc) == 0 && !!g == !!f, "clone by tag '%s'", tc);
		if (g) { same(take(g), *f, "clone by tag"); rrr_type_value_destroy(g); }
		struct rrr_array b = {}; CHECK(rrr_array_message_append_to_array_by_tag(&b, msg, tc) == 0, "append by tag");
		Model w; if (f) w.push_back(*f);
		same(&b, w, "append by tag"); rrr_array_clear(&b);
	}
	int idx = (int) s.u(m.size());
	struct rrr_type_value *gi = rrr_array_value_get_by_index(a, idx);
	CHECK(!!gi == ((size_t) idx < m.size()), "get by index"); if (gi) same(take(gi), m[(size_t) idx], "get by index");

	unsigned i = f ? (unsigned) s.u(f->n() + 1) : 0; uint64_t u = 0; int64_t sg = 0;
	int ru = rrr_array_get_value_unsigned_64_by_tag(&u, a, tc, i), rs = rrr_array_get_value_signed_64_by_tag(&sg, a, tc, i);
	if (!f || i >= f->n()) CHECK(ru && rs, "number %u of '%s' was found", i, tc);
	else if (f->type == RRR_TYPE_H) {
		uint64_t w; memcpy(&w, f->el[i].data(), 8);
		bool neg = (f->flags & 1) && (int64_t) w < 0, big = !(f->flags & 1) && w > INT64_MAX;
		CHECK(ru == neg && (neg || u == w), "unsigned element %u of '%s' is %llu (return %d), want %llu", i, tc, (unsigned long long) u, ru, (unsigned long long) w);
		CHECK(rs == big && (big || sg == (int64_t) w), "signed element %u of '%s' is %lld (return %d), want %lld", i, tc, (long long) sg, rs, (long long) w);
		if (i) label("64-bit element by index");
	}
	if (f && f->type == RRR_TYPE_H) { unsigned long long q = 0; uint64_t w; memcpy(&w, f->el[0].data(), 8); CHECK(rrr_array_get_value_ull_by_tag(&q, a, tc) == 0 && q == w, "ull of '%s'", tc); }
	if (f && f->type == RRR_TYPE_STR) { unsigned long long q = 0; CHECK(rrr_array_get_value_ull_by_tag(&q, a, tc) == 0 && q == strtoull(f->el[0].substr(0, 255).c_str(), NULL, 10), "ull of text '%s'", tc); }
	char *st = NULL;
	int rt = rrr_array_get_value_str_by_tag(&st, a, tc);
	CHECK(!!rt == !f, "text of '%s': %d", tc, rt);
	if (f) {
		std::string w, got = st; bool check = true;
		if (f->type == RRR_TYPE_H) for (auto &e : f->el) { uint64_t x; memcpy(&x, e.data(), 8); w += (w.empty() ? "" : ",") + ((f->flags & 1) ? std::to_string((int64_t) x) : std::to_string(x)); }
		else if (f->type == RRR_TYPE_STR || f->type == RRR_TYPE_SEP || f->type == RRR_TYPE_STX) w = f->data().c_str();
		else if (f->type == RRR_TYPE_VAIN) w = "";
		else if (f->type == RRR_TYPE_FIXP) check = false;
		else { char b[3]; for (unsigned char c : f->data()) { snprintf(b, 3, "%02x", c); w += b; } for (auto &c : got) c = (char) tolower(c); }
		if (check) CHECK(got == w, "text of '%s' is %s, want %s", tc, show(got).c_str(), show(w).c_str());
		rrr_free(st);
	}
}

// selection by tags: split and export
static void selection(Src &s, struct rrr_array *a, const Model &m) {
	std::vector<std::string> tags; size_t n = s.u(3); bool all = s.chance(1, 3); struct rrr_map map = {};
	for (size_t i = 0; i < n; i++) { tags.push_back(m.empty() || s.chance(1, 4) ? gen_tag(s) : m[s.u(m.size() - 1)].tag); rrr_map_item_add_new(&map, tags.back().c_str(), ""); }
	Model w = sub(m, all ? NULL : &tags); int found = -1;
	Split sp = {&m, {}};
	bool msg_multi = false;
	CHECK(rrr_array_selected_tags_split(&found, a, all ? NULL : &map, split_cb, &sp) == 0, "split failed");
	CHECK((size_t) found == w.size() && sp.got.size() == w.size(), "split found %d values, want %zu", found, w.size());
	for (size_t i = 0; i < w.size(); i++) same(sp.got[i], w[i], "split");
	bool fixp = false; for (auto &v : w) { fixp |= v.type == RRR_TYPE_FIXP; msg_multi |= v.type == RRR_TYPE_MSG; }
	if (fixp) { char *buf = NULL; rrr_biglength len = 0; CHECK(rrr_array_selected_tags_export(&buf, &len, &found, a, all ? NULL : &map) != 0, "a fixed point value has no export format"); }
	else {
		char *buf = NULL; rrr_biglength len = 0; std::string x; for (auto &v : w) x += exported(v);
		CHECK(rrr_array_selected_tags_export(&buf, &len, &found, a, all ? NULL : &map) == 0, "export failed");
		CHECK((size_t) found == w.size() && len == x.size(), "export made %llu bytes of %d values, want %zu of %zu", (unsigned long long) len, found, x.size(), w.size());
		if (!msg_multi) CHECK(!memcmp(buf, x.data(), x.size()), "export made %s, want %s", show(buf, len).c_str(), show(x).c_str());
		rrr_free(buf);
		if (w.size()) label("export");
	}
	rrr_map_clear(&map);
}

static void edits(Src &s, struct rrr_array *a, Model &m) {
	for (size_t k = s.u(4); k; k--) switch (s.u(6)) {
		case 0: { std::string t = m.empty() ? "a" : m[s.u(m.size() - 1)].tag; unsigned c = 0, w = 0; Model r; for (auto &v : m) if (tag_is(v, t)) w++; else r.push_back(v);
			rrr_array_clear_by_tag_checked(&c, a, t.c_str()); CHECK(c == w, "cleared %u values with tag, want %u", c, w); m = r; break; }
		case 1: { const struct rrr_type_definition *d = s.flip() ? &rrr_type_definition_h : &rrr_type_definition_str; Model r; for (auto &v : m) if (v.type != d->type) r.push_back(v); rrr_array_strip_type(a, d); m = r; break; }
		case 2: rrr_array_rotate_forward(a); if (m.size()) { std::rotate(m.begin(), m.end() - 1, m.end()); } break;
		case 3: rrr_array_rotate_reverse(a); if (m.size()) { std::rotate(m.begin(), m.begin() + 1, m.end()); } break;
		case 4: { size_t n = s.u(m.size()); rrr_array_trim(a, (int) n); m.resize(n); break; }
		case 5: { struct rrr_array *b = NULL; CHECK(rrr_array_clone(&b, a) == 0 && b, "clone"); same(b, m, "clone"); if (m.size() < 30) { CHECK(rrr_array_append_from(a, b) == 0, "append"); Model k2 = m; m.insert(m.end(), k2.begin(), k2.end()); } rrr_array_destroy(b); break; }
		case 6: { struct rrr_array b = {}; CHECK(rrr_array_clone_without_data(&b, a) == 0 && (size_t) rrr_array_count(&b) == m.size(), "clone without data"); rrr_array_clear(&b); break; }
	}
	same(a, m, "after edits");
}

static struct rrr_msg_msg *over_network(struct rrr_msg_msg *msg) {
	rrr_length size = MSG_TOTAL_SIZE(msg);
	rrr_msg_msg_prepare_for_network(msg); rrr_msg_checksum_and_to_network_endian((struct rrr_msg *) msg);
	CHECK(rrr_msg_head_to_host_and_verify((struct rrr_msg *) msg, size) == 0 && rrr_msg_check_data_checksum_and_length((struct rrr_msg *) msg, size) == 0 && rrr_msg_msg_to_host_and_verify(msg, size) == 0, "array message does not verify");
	return msg;
}

static void roundtrip(Src &s) {
	struct rrr_array a = {}; Model m; size_t n = s.len(10);
	for (size_t i = 0; i < n; i++) add(s, &a, m);
	if (n > 1) nontrivial();
	same(&a, m, "array as built");
	edits(s, &a, m);
	std::string topic = gen_utf8(s, 20); uint64_t ts = s.u64(); struct rrr_msg_msg *msg = NULL;
	CHECK(rrr_array_new_message_from_array(&msg, &a, ts, topic.data(), (rrr_u16) topic.size()) == 0, "packing failed");
	CHECK(MSG_IS_ARRAY(msg) && msg->timestamp == ts && std::string(MSG_TOPIC_PTR(msg), MSG_TOPIC_LENGTH(msg)) == topic, "message lost topic or time");
	if (s.flip()) msg = over_network(msg);
	struct rrr_array b = {}; uint16_t ver = 0; Model m2 = m;
	if (s.chance(1, 3)) { rrr_array_append_from(&b, &a); for (auto &v : m) m2.push_back(v); }
	CHECK(rrr_array_message_append_to_array(&ver, &b, msg) == 0 && ver == RRR_ARRAY_VERSION, "unpacking failed");
	same(&b, m2, "unpacked");
	std::vector<V> it; CHECK(rrr_array_message_iterate_values(msg, values_cb, &it) == 0 && it.size() == m.size(), "iterating failed");
	for (size_t i = 0; i < m.size(); i++) same(it[i], m[i], "iterated");
	for (int i = 0; i < 3; i++) { lookups(s, &a, msg, m); lookups(s, &b, NULL, m2); }
	selection(s, &a, m); selection(s, &b, m2);
	edits(s, &b, m2);
	CHECK(rrr_array_dump(&b) == 0, "dump failed");
	(void) rrr_array_get_allocated_size(&b);
	rrr_array_clear(&a); rrr_array_clear(&b); rrr_free(msg);
}
VP_TARGET_NOLEAK(roundtrip, 40000, "0-11 values of all types and element counts, packed (half of them also converted to network order and back), unpacked, edited, looked up, split and exported; non-trivial: more than one value");

// A hostile peer: array messages with edited or arbitrary value headers
static int raw_cb(RRR_TYPE_RAW_FIELDS, void *arg) {
	(void) type; (void) flags;
	std::string *sum = (std::string *) arg; unsigned char x = 0;
	for (size_t i = 0; i < (size_t) tag_length + total_length; i++) x ^= (unsigned char) data_start[i];   // within the message, or ASAN tells
	*sum += (char) x; (void) element_count;
	return 0;
}
static void hostile(Src &s) {
	std::string body;
	if (s.chance(2, 3)) {
		struct rrr_array a = {}; Model m; size_t n = 1 + s.len(4); for (size_t i = 0; i < n; i++) add(s, &a, m);
		struct rrr_msg_msg *msg = NULL; CHECK(rrr_array_new_message_from_array(&msg, &a, 1, NULL, 0) == 0, "packing failed");
		body.assign(MSG_DATA_PTR(msg), MSG_DATA_LENGTH(msg)); rrr_free(msg);
		std::vector<size_t> at; size_t o = 0;
		for (auto &v : m) { at.push_back(o); o += 14 + v.tag.size() + v.data().size(); }
		rrr_array_clear(&a);
		for (size_t k = s.u(3); k; k--) {
			size_t h = at[s.u(at.size() - 1)];
			switch (s.u(5)) {
				case 0: body[h] = (char) s.n(20); break;
				case 1: body[h + 1] = (char) s.n(255); break;
				case 2: case 3: case 4: { size_t f = h + 2 + 4 * s.u(2); uint32_t v = (uint32_t) (s.flip() ? s.n(40) : s.n(UINT32_MAX)); std::string e; wr_be(e, v, 4); body.replace(f, 4, e); break; }
				default: body[s.u(body.size() - 1)] = (char) s.n(255);
			}
		}
		if (s.chance(1, 6)) body.resize(s.u(body.size()));
	}
	else for (size_t k = 1 + s.len(4); k; k--) {
		std::string tag = s.chars(s.len(4), "ab\0"), d = s.bytes(s.len(20)); 
		body += (char) s.range(1, 17); body += (char) s.n(3); wr_be(body, s.chance(1, 8) ? s.n(UINT32_MAX) : tag.size(), 4); wr_be(body, s.chance(1, 8) ? s.n(UINT32_MAX) : d.size(), 4); wr_be(body, s.chance(1, 4) ? s.n(UINT32_MAX) : s.n(3), 4);
		body += tag + d;
	}
	desc("body %s", show(body).c_str());
	struct rrr_msg_msg *msg = NULL;
	CHECK(rrr_msg_msg_new_with_data(&msg, MSG_TYPE_MSG, MSG_CLASS_ARRAY, 1, NULL, 0, body.data(), (rrr_u32) body.size()) == 0, "new");
	msg->version = s.chance(1, 30) ? (rrr_u16) s.n(65535) : RRR_ARRAY_VERSION;
	nontrivial();
	std::string sum; rrr_array_message_iterate(msg, raw_cb, &sum);
	for (const char *t : {"", "a", "b", "ab"}) { rrr_array_message_has_tag(msg, t); struct rrr_type_value *g = NULL; if (rrr_array_message_clone_value_by_tag(&g, msg, t) == 0 && g) rrr_type_value_destroy(g); }
	struct rrr_array a = {}; uint16_t ver = 0;
	int ret = rrr_array_message_append_to_array(&ver, &a, msg);
	label(ret ? "rejected" : "accepted");
	if (ret) CHECK(rrr_array_count(&a) == 0, "values appended from a rejected message");
	else {
		CHECK(ver == RRR_ARRAY_VERSION, "version %u accepted", ver);
		Model m; std::vector<std::string> tags; bool fixp = false;
		bool huge = false;   // any number of elements without data is well-formed
		for (struct rrr_type_value *v = a.ptr_first; v; v = v->ptr_next) huge |= v->element_count > 10000 && v->total_stored_length == 0;
		if (huge) { rrr_array_dump(&a); rrr_array_clear(&a); rrr_free(msg); label("elements without data"); return; }
		for (struct rrr_type_value *v = a.ptr_first; v; v = v->ptr_next) {
			V x = take(v); m.push_back(x); fixp |= x.type == RRR_TYPE_FIXP;
			uint64_t u; int64_t i; unsigned long long q; char *t = NULL;
			for (unsigned k = 0; k < 4; k++) { rrr_array_get_value_unsigned_64_by_tag(&u, &a, v->tag, k); rrr_array_get_value_signed_64_by_tag(&i, &a, v->tag, k); }
			rrr_array_get_value_ull_by_tag(&q, &a, v->tag); if (rrr_array_get_value_str_by_tag(&t, &a, v->tag) == 0) rrr_free(t);
			if (v->definition->to_64) v->definition->to_64(v);
		}
		rrr_array_dump(&a);
		Split sp = {&m, {}}; int found; rrr_array_selected_tags_split(&found, &a, NULL, split_cb, &sp);
		{ char *buf = NULL; rrr_biglength len; int r = rrr_array_selected_tags_export(&buf, &len, &found, &a, NULL); if (r == 0) rrr_free(buf); }
		// what was accepted packs into a message with the same values
		struct rrr_msg_msg *again = NULL; struct rrr_array b = {};
		CHECK(rrr_array_new_message_from_array(&again, &a, 1, NULL, 0) == 0 && rrr_array_message_append_to_array(&ver, &b, again) == 0, "values taken from a message can't be packed again");
		same(&b, m, "packed again");
		rrr_array_clear(&b); rrr_free(again);
	}
	rrr_array_clear(&a); rrr_free(msg);
}
VP_TARGET_NOLEAK(hostile, 60000, "array messages with edited or arbitrary value headers; every case counts");

// Memory running out
static void nomem(Src &s) {
	struct rrr_array a = {}; Model m; size_t n = 1 + s.len(5); for (size_t i = 0; i < n; i++) add(s, &a, m);
	struct rrr_msg_msg *msg = NULL; CHECK(rrr_array_new_message_from_array(&msg, &a, 1, NULL, 0) == 0, "packing failed");
	struct rrr_array b = {}, *c = NULL; uint16_t ver; int ret = 0; struct rrr_msg_msg *msg2 = NULL; struct rrr_map map = {}; char *buf = NULL;
	int op = (int) s.u(5); long k = 1 + (long) s.len(20); alloc_fail_at(k);
	switch (op) {
		case 0: ret = rrr_array_message_append_to_array(&ver, &b, msg); if (ret) CHECK(!rrr_array_count(&b), "partial result"); break;
		case 1: ret = rrr_array_append_from(&b, &a); if (ret) CHECK(!rrr_array_count(&b), "partial result"); break;
		case 2: ret = rrr_array_clone(&c, &a); break;
		case 3: ret = rrr_array_new_message_from_array(&msg2, &a, 1, "t", 1); break;
		case 4: ret = rrr_array_push_value_str_with_tag(&b, "tag", "value"); break;
		case 5: { struct rrr_type_value *g = NULL; ret = rrr_array_message_clone_value_by_tag(&g, msg, m.back().tag.c_str()); if (!ret) { CHECK(g, "success without value"); } if (g) rrr_type_value_destroy(g); break; }
	}
	bool failed = alloc_failed(); alloc_fail_at(0);
	desc("operation %d, allocation %ld fails", op, k);
	if (failed) { nontrivial(); CHECK(ret, "allocation %ld failed in operation %d and success was reported", k, op); CHECK(!c && !msg2, "result left after failure"); }
	else {
		CHECK(ret == 0, "operation %d failed with %d", op, ret);
		if (op < 2) same(&b, m, "result");
		if (op == 2) { same(c, m, "clone"); }
	}
	if (c) rrr_array_destroy(c);
	rrr_array_clear(&a); rrr_array_clear(&b); rrr_free(msg); if (msg2) rrr_free(msg2); rrr_map_clear(&map); (void) buf;
}
VP_TARGET_NOLEAK(nomem, 12000, "one allocation fails while arrays are packed, unpacked or copied; non-trivial: an allocation failed");

static void init() { vp_lib_init(); }
VP_MAIN(init)
