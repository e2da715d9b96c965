// Messages as values, for the targets which run modules
#pragma once
extern "C" {
#include "lib/array.h"
#include "lib/messages/msg_msg.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
}
using namespace vp;
// One value and one message
struct V { char t; std::string tag, data; uint64_t n = 0; bool neg = false; bool operator==(const V &o) const { return t == o.t && tag == o.tag && data == o.data && n == o.n && neg == o.neg; } };
struct M { bool array = true; std::string topic, data; uint64_t ts = 0; std::vector<V> v; int type = MSG_TYPE_MSG; };
static std::string str(const V &v) { return std::string(1, v.t) + ":" + v.tag + "=" + (v.t == 'h' ? (v.neg ? "-" : "") + std::to_string(v.neg ? 0 - v.n : v.n) : show(v.data)); }
static std::string str(const M &m) { std::string o = show(m.topic) + "@" + std::to_string(m.ts) + (m.array ? "[" : "(" + show(m.data) + ")"); for (auto &x : m.v) o += str(x) + " "; return o; }
static bool same(const M &a, const M &b, bool ts) { return a.array == b.array && a.topic == b.topic && a.data == b.data && a.v == b.v && a.type == b.type && (!ts || a.ts == b.ts); }
static int push_sep(struct rrr_array *a, const V &v) { struct rrr_type_value *n = NULL; if (rrr_type_value_new(&n, &rrr_type_definition_sep, 0, (rrr_length) v.tag.size(), v.tag.c_str(), (rrr_length) v.data.size(), NULL, 1, NULL, (rrr_length) v.data.size())) return 1; memcpy(n->data, v.data.data(), v.data.size()); RRR_LL_APPEND(a, n); return 0; }
static struct rrr_msg_holder *make(const M &m) {
	struct rrr_msg_msg *msg = NULL; std::unique_ptr<char[]> tp(new char[m.topic.size() + 1]); memcpy(tp.get(), m.topic.c_str(), m.topic.size() + 1);
	if (m.array) { struct rrr_array a; memset(&a, 0, sizeof(a)); for (auto &v : m.v) { int r = v.t == 'v' ? rrr_array_push_value_vain_with_tag(&a, v.tag.c_str()) : v.t == 'e' ? push_sep(&a, v) : v.t == 'h' ? (v.neg ? rrr_array_push_value_i64_with_tag(&a, v.tag.c_str(), (int64_t) v.n) : rrr_array_push_value_u64_with_tag(&a, v.tag.c_str(), v.n)) : v.t == 's' ? rrr_array_push_value_str_with_tag_with_size(&a, v.tag.c_str(), v.data.data(), (rrr_length) v.data.size()) : rrr_array_push_value_blob_with_tag_with_size(&a, v.tag.c_str(), v.data.data(), (rrr_length) v.data.size()); CHECK(r == 0, "push"); } CHECK(rrr_array_new_message_from_array(&msg, &a, m.ts, tp.get(), (rrr_u16) m.topic.size()) == 0, "message"); rrr_array_clear(&a); }
	else CHECK(rrr_msg_msg_new_with_data(&msg, MSG_TYPE_MSG, MSG_CLASS_DATA, m.ts, tp.get(), (rrr_u16) m.topic.size(), m.data.data(), (rrr_u32) m.data.size()) == 0, "message");
	MSG_SET_TYPE(msg, m.type); struct rrr_msg_holder *h = NULL; CHECK(rrr_msg_holder_new(&h, MSG_TOTAL_SIZE(msg), NULL, 0, 0, msg) == 0, "holder"); return h;
}
static M read(const struct rrr_msg_holder *h) {
	const struct rrr_msg_msg *msg = (const struct rrr_msg_msg *) h->message; M m; CHECK(h->data_length == MSG_TOTAL_SIZE(msg), "the length of the entry is %llu, of the message %llu", (unsigned long long) h->data_length, (unsigned long long) MSG_TOTAL_SIZE(msg)); m.topic.assign(MSG_TOPIC_PTR(msg), MSG_TOPIC_LENGTH(msg)); m.ts = msg->timestamp; m.array = MSG_IS_ARRAY(msg); m.type = MSG_TYPE(msg);
	if (!m.array) { m.data.assign(MSG_DATA_PTR(msg), MSG_DATA_LENGTH(msg)); return m; }
	struct rrr_array a; memset(&a, 0, sizeof(a)); uint16_t ver; CHECK(rrr_array_message_append_to_array(&ver, &a, msg) == 0, "the array of a written message"); RRR_LL_ITERATE_BEGIN(&a, const struct rrr_type_value); V v; v.tag = node->tag ? node->tag : ""; if (node->definition->type == RRR_TYPE_H) { v.t = 'h'; v.n = *(uint64_t *) node->data; v.neg = RRR_TYPE_FLAG_IS_SIGNED(node->flags); CHECK(node->total_stored_length == 8 && node->element_count == 1, "number"); } else if (node->definition->type == RRR_TYPE_VAIN) { v.t = 'v'; CHECK(node->total_stored_length == 0, "vain"); } else { v.t = node->definition->type == RRR_TYPE_STR ? 's' : node->definition->type == RRR_TYPE_BLOB ? 'b' : node->definition->type == RRR_TYPE_SEP ? 'e' : '?'; CHECK(node->element_count == 1, "count"); v.data.assign(node->data, node->total_stored_length); } m.v.push_back(v); RRR_LL_ITERATE_END(); rrr_array_clear(&a); return m;
}
