// The MQTT headers do not compile as C++: what the harness needs of them
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/mqtt/mqtt_packet.h"
#include "lib/mqtt/mqtt_parse.h"
#include "lib/mqtt/mqtt_common.h"
#include "lib/mqtt/mqtt_payload.h"
#include "lib/mqtt/mqtt_subscription.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/helpers/nullsafe_str.h"
#include "c10_glue.h"

struct rrr_mqtt_parse_session sess;

void g_init(void) { rrr_mqtt_parse_session_init(&sess); }
void g_destroy(void) { rrr_mqtt_parse_session_destroy(&sess); }
void g_reset(void) { memset(&sess, 0, sizeof sess); }
int g_feed(const char *buf, size_t wpos, int version) {
	rrr_mqtt_parse_session_update(&sess, buf, wpos, sess.protocol_version ? sess.protocol_version : version ? rrr_mqtt_p_get_protocol_version((uint8_t) version) : NULL);
	rrr_mqtt_packet_parse(&sess);
	return RRR_MQTT_PARSE_IS_ERR(&sess) ? -1 : RRR_MQTT_PARSE_IS_COMPLETE(&sess) ? 1 : 0;
}
size_t g_target(void) { return RRR_MQTT_PARSE_FIXED_HEADER_IS_DONE(&sess) ? sess.target_size : 0; }

static void hex(FILE *f, const char *k, const void *p, size_t n) { fprintf(f, " %s=", k); for (size_t i = 0; i < n; i++) fprintf(f, "%02x", ((const uint8_t *) p)[i]); }
static void str(FILE *f, const char *k, const char *s) { if (s) hex(f, k, s, strlen(s)); else fprintf(f, " %s=~", k); }
static int ns_cb(const void *d, rrr_nullsafe_len n, void *a) { hex(a, "willmsg", d, n); return 0; }
static void props(FILE *f, const char *k, const struct rrr_mqtt_property_collection *c) {
	fprintf(f, " %s[", k);
	RRR_LL_ITERATE_BEGIN(c, const struct rrr_mqtt_property);
		fprintf(f, "%02x", node->definition->identifier);
		if (node->internal_data_type == RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_UINT32) fprintf(f, " %u", rrr_mqtt_property_get_uint32(node));
		else { rrr_length l = 0; const char *d = rrr_mqtt_property_get_blob(node, &l); hex(f, "d", d, l); char *s = NULL; if (rrr_mqtt_property_get_blob_as_str(&s, node) != 0 || memcmp(s, d, l) != 0 || s[l] || d[l]) abort(); rrr_free(s); }
		if (node->sibling) { hex(f, "v", node->sibling->data, node->sibling->length); }
		fprintf(f, ";");
	RRR_LL_ITERATE_END();
	fprintf(f, "]");
}
static int sub_cb(struct rrr_mqtt_subscription *s, void *a) { str(a, "sub", s->topic_filter); fprintf(a, ":%u%u%u%u", s->retain_handling, s->rap, s->nl, s->qos_or_reason_v5); return 0; }
static void tree(FILE *f, const struct rrr_mqtt_topic_token *t) { for (; t; t = t->next) str(f, "lvl", t->data); }

char *g_dump(struct rrr_mqtt_p *p) {
	char *out = NULL; size_t n = 0; FILE *f = open_memstream(&out, &n);
	int t = RRR_MQTT_P_GET_TYPE(p);
	fprintf(f, "type=%d ver=%d", t, p->protocol_version->id);
	switch (t) {
		case 1: { struct rrr_mqtt_p_connect *c = (void *) p; fprintf(f, " fl=%u ka=%u", c->connect_flags, c->keep_alive);
			str(f, "id", c->client_identifier); props(f, "p", &c->properties);
			if (RRR_MQTT_P_CONNECT_GET_FLAG_WILL(c)) { props(f, "wp", &c->will_properties); str(f, "wt", c->will_topic); if (!c->will_message) fprintf(f, " nomsg"); else rrr_nullsafe_str_with_raw_do_const(c->will_message, ns_cb, f); }
			str(f, "user", c->username); str(f, "pass", c->password); break; }
		case 2: { struct rrr_mqtt_p_connack *c = (void *) p; fprintf(f, " fl=%u sp=%u reason=%u", c->ack_flags, c->session_present, p->reason_v5); props(f, "p", &c->properties); break; }
		case 3: { struct rrr_mqtt_p_publish *c = (void *) p; fprintf(f, " fl=%u pid=%u", p->type_flags, p->packet_identifier); str(f, "topic", c->topic); tree(f, c->token_tree_); props(f, "p", &c->properties); break; }
		case 4: case 5: case 6: case 7: { struct rrr_mqtt_p_def_puback *c = (void *) p; fprintf(f, " pid=%u reason=%u", p->packet_identifier, p->reason_v5); props(f, "p", &c->properties); break; }
		case 8: case 10: { struct rrr_mqtt_p_sub_usub *c = (void *) p; fprintf(f, " pid=%u", p->packet_identifier); props(f, "p", &c->properties); rrr_mqtt_subscription_collection_iterate(c->subscriptions, sub_cb, f); break; }
		case 9: case 11: { struct rrr_mqtt_p_suback_unsuback *c = (void *) p; fprintf(f, " pid=%u", p->packet_identifier); props(f, "p", &c->properties); hex(f, "ack", c->acknowledgements, c->acknowledgements_size); break; }
		case 14: { struct rrr_mqtt_p_disconnect *c = (void *) p; fprintf(f, " reason=%u", p->reason_v5); props(f, "p", &c->properties); break; }
	}
	fclose(f); return out;
}
struct rrr_mqtt_p *g_extract(size_t *payload_pos) {
	struct rrr_mqtt_p *p = NULL;
	*payload_pos = RRR_MQTT_PARSE_STATUS_IS_MOVE_PAYLOAD_TO_PACKET(&sess) && sess.type == 3 ? sess.payload_pos : (size_t) -1;
	if (sess.packet && sess.packet->received_size != sess.target_size) abort();
	rrr_mqtt_packet_parse_session_extract_packet(&p, &sess);
	return p;
}
int g_set_payload(struct rrr_mqtt_p *p, const char *d, size_t n) {
	char *m = rrr_allocate(n + 3); if (!m) return 1; memcpy(m + 3, d, n);
	int r = rrr_mqtt_p_payload_new_with_allocated_payload(&p->payload, &m, m + 3, (rrr_length) n); if (m) rrr_free(m); return r;
}
const char *g_payload(struct rrr_mqtt_p *p, size_t *n) { if (!p->payload) { *n = 0; return NULL; } *n = p->payload->size; return p->payload->payload_start; }
int g_assemble(char **d, size_t *n, struct rrr_mqtt_p *p) { rrr_length l = 0; int r = RRR_MQTT_P_GET_ASSEMBLER(p)(d, &l, p); *n = l; return r; }
struct rrr_mqtt_p *g_clone(struct rrr_mqtt_p *p) { return (struct rrr_mqtt_p *) rrr_mqtt_p_clone_publish((struct rrr_mqtt_p_publish *) p, 1, 1, 1); }
void g_unref(struct rrr_mqtt_p *p) { RRR_MQTT_P_DECREF(p); }
void g_free(void *p) { rrr_free(p); }
int g_suback_fill(struct rrr_mqtt_p *p) {       // acknowledgements become subscriptions to be assembled
	struct rrr_mqtt_p_suback *c = (void *) p; char b[32];
	if (!c->subscriptions_ && rrr_mqtt_subscription_collection_new(&c->subscriptions_) != 0) return 1;
	for (rrr_length i = 0; i < c->acknowledgements_size; i++) { snprintf(b, sizeof b, "t%u", i); struct rrr_mqtt_subscription *s = NULL; if (rrr_mqtt_subscription_new(&s, b, 0, 0, 0, 0) != 0) return 1; s->qos_or_reason_v5 = c->acknowledgements[i]; int r = rrr_mqtt_subscription_collection_add_unique(c->subscriptions_, &s, 1); if (r != 0) return 1; }
	return 0;
}
