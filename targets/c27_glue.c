#include <stdlib.h>
#include <string.h>
#include "c27_stub.h"
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/array.h"
#include "lib/threads.h"
#include "lib/instances.h"
#include "lib/poll_helper.h"
#include "lib/message_broker.h"
#include "lib/event/event.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/messages/msg_msg.h"
#include "lib/msgdb/msgdb_client.h"
#include "c27_glue.h"
void c27_init_mangler(struct rrr_instance_module_data *); void c27_init_exploder(struct rrr_instance_module_data *); void c27_init_incrementer(struct rrr_instance_module_data *); void c27_init_buffer(struct rrr_instance_module_data *);
static struct { struct rrr_instance_module_data md; struct rrr_thread *t; struct rrr_msg_holder **e; size_t n; char get[70000]; int have_get; uint64_t put; char put_topic[70000]; int have_put; uint16_t put_len; } g;
void c27_run(int module, struct rrr_instance_config_data *cfg) {
	memset(&g.md, 0, sizeof(g.md)); (module == C27_MANGLER ? c27_init_mangler : module == C27_EXPLODER ? c27_init_exploder : module == C27_INCREMENTER ? c27_init_incrementer : c27_init_buffer)(&g.md); g.md.instance_name = cfg->name_debug;
	struct rrr_instance_runtime_data *rd = calloc(1, sizeof(*rd)); struct rrr_thread *t = calloc(1, sizeof(*t)); rd->init_data.instance_config = cfg; rd->init_data.module = &g.md; rd->thread = t; t->private_data = rd; g.t = t; g.have_get = g.have_put = 0;
	g.md.operations.thread_entry(t);
	free(rd); free(t);
}
int c27_dispatch(struct rrr_event_queue *q, unsigned int us, int (*p)(RRR_EVENT_FUNCTION_PERIODIC_ARGS), void *arg) { (void) q; (void) us; (void) p; (void) arg; c27_case(); return 0; }
void c27_start(struct rrr_thread *t) { (void) t; }
int c27_feed(struct rrr_msg_holder **e, size_t n) { g.e = e; g.n = n; uint16_t amount = (uint16_t) n; return g.md.event_functions.broker_data_available(&amount, g.t); }
int c27_poll(uint16_t *amount, struct rrr_instance_runtime_data *rd, int (*cb)(RRR_MODULE_POLL_CALLBACK_SIGNATURE)) { int ret = 0; for (size_t i = 0; i < g.n; i++) { if (!ret) { rrr_msg_holder_lock(g.e[i]); ret = cb(g.e[i], rd); (*amount)--; } rrr_msg_holder_decref(g.e[i]); } return ret; }
int c27_write(struct rrr_message_broker_costumer *c, struct rrr_msg_holder *e, const rrr_msg_holder_nexthops *nh, int (*cc)(void *), void *ca) { (void) c; (void) nh; (void) cc; (void) ca; return c27_written(e); }
// A message database with IDs
int c27_db_ensure(struct rrr_msgdb_client_conn *conn, const char *socket, struct rrr_event_queue *q, int (*cb)(struct rrr_msgdb_client_conn *, void *), void *arg, int (*d)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS), void *da) { (void) socket; (void) q; (void) d; (void) da; g.have_get = g.have_put = 0; return cb(conn, arg); }
int c27_db_get(struct rrr_msgdb_client_conn *conn, const char *topic) { (void) conn; strcpy(g.get, topic); g.have_get = 1; return 0; }
int c27_db_send(struct rrr_msgdb_client_conn *conn, const struct rrr_msg_msg *m) {
	(void) conn; if (MSG_TYPE(m) != MSG_TYPE_PUT) abort(); struct rrr_array a = {0}; uint16_t v; if (rrr_array_message_append_to_array(&v, &a, m)) abort(); const struct rrr_type_value *x = rrr_array_value_get_by_tag_const(&a, "id"); if (!x) abort(); g.put = x->definition->to_ull(x); g.put_len = MSG_TOPIC_LENGTH(m); memcpy(g.put_topic, MSG_TOPIC_PTR(m), g.put_len); g.have_put = 1; rrr_array_clear(&a); return 0;
}
int c27_db_await(struct rrr_msgdb_client_conn *conn, int (*d)(RRR_MSGDB_CLIENT_DELIVERY_CALLBACK_ARGS), void *arg) {
	(void) conn; struct rrr_msg_msg *m = NULL; uint64_t id = 0; int ret = 0;
	if (g.have_put) { int f = c27_db(1, g.put_topic, g.put_len, &g.put); if (f == 2) return 1; ret = d(&m, f == 0, f != 0, arg); }
	else if (g.have_get) { int f = c27_db(0, g.get, (uint16_t) strlen(g.get), &id); if (f == 2) return 1; if (f == 0) { struct rrr_array a = {0}; if (rrr_array_push_value_u64_with_tag(&a, "id", id) || rrr_array_new_message_from_array(&m, &a, 1, g.get, (uint16_t) strlen(g.get))) abort(); rrr_array_clear(&a); } ret = d(&m, 0, f != 0, arg); }
	else abort();
	g.have_get = g.have_put = 0; if (m) rrr_free(m); return ret;
}
void c27_db_close(struct rrr_msgdb_client_conn *conn) { (void) conn; }
